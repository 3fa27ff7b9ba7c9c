"""The oracle of C25: reads a file of length-prefixed documents (4 bytes, little endian) and
prints for each of them "ok" if it is well-formed, with its namespaces, according to expat, or the
number, the position and the text of the error."""
import struct
import sys
import xml.parsers.expat as expat

data = open(sys.argv[1], "rb").read()
at = 0
out = []
while at < len(data):
    (n,) = struct.unpack_from("<I", data, at)
    text = data[at + 4 : at + 4 + n]
    at += 4 + n
    # The text is decoded already, so that the declared encoding does not matter.
    p = expat.ParserCreate("UTF-8", "\x01")
    try:
        p.Parse(text, True)
        out.append("ok")
    except expat.ExpatError as e:
        out.append("%d %d %s" % (e.code, p.ErrorByteIndex, expat.ErrorString(e.code)))
sys.stdout.write("\n".join(out) + "\n")

"""U01: UTF-8 encoding and decoding."""
import utf8 as U8
from mem import *

class U8Heap(Heap):
    def __init__(self):
        Heap.__init__(self); self.utf8_contract = False

def utf8(r):
    r.rule = ('symbolic bit-field evaluation of the encoder, the decoder and the length functions (inline assembly included) for every code point below 2^31, '
              'by number of significant bits with all lower bits symbolic: bytes as in RFC 2279, lengths agree, decoding gives the code point back; '
              'decoding arbitrary zero-terminated bytes stays inside the text')
    r.trusted = TB
    analyse(r, ['memory.cc', 'utf8.cc'], U8.check, {'utf8', 'bounds', 'null', 'ownership'}, entcls=U8.U8Entry, client=U8Heap, pat='^P_u8_')
    r.minimum.update(operations=9, exits=112)

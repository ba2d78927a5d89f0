"""S01: binary streams keep inside their buffer and account for every byte."""
import streams
from mem import *

def binary(r):
    r.rule = ('abstract interpretation of every istream/ostream operation over symbolic buffers, sizes, positions and requests, with exceptions enabled and disabled: '
              'accesses stay inside the buffer and the argument; position <= size at every exit; a request that fits moves the position by exactly its size and '
              'every byte (followed by tagging) to its place; a request that does not fit sets failbit, throws iff enabled, and changes neither position nor data')
    r.trusted = TB
    analyse(r, ['memory.cc', 'strings.cc', 'streams.cc'], streams.check_stream, {'stream', 'bounds', 'null', 'ownership', 'overlap'}, entcls=streams.StreamEntry,
            pat='^P_(istream|ostream|mlo)_')
    r.minimum.update(operations=80, exits=270)

def serial(r):
    r.rule = ('symbolic evaluation of stream_size_of, operator<< and operator>> on the same symbolic value, for every streamable type of the library: the three byte counts are equal and every '
              'byte of the value (for containers: of a symbolic element, through write histories and loop summaries) read back is the one written')
    r.trusted = TB
    import roundtrip, os
    from text import U8Heap
    analyse(r, ['memory.cc', 'strings.cc', 'roundtrip.cc'], roundtrip.check_rt, {'roundtrip', 'bounds', 'null', 'ownership', 'alignment', 'overlap'},
            entcls=roundtrip.RtEntry, client=U8Heap, pat=os.environ.get('PAT', '^P_rt_'))
    r.minimum.update(operations=50, exits=1350)

def hostile_exit(ent, e, kind, s, objs, label, st, init):
    out = check_ownership(ent, e, kind, s, objs, label, st)
    o = objs[0]
    st['oblig'] += 1
    pos, size = (s.norm(ent.rd(s, o['o'], o['cls'], f)) for f in ('pos', 'size'))
    if not s.ule(pos, size): out.append(('stream', 'the position %s may lie beyond the end %s of the stream' % (pos, size)))
    return out

def hostile(r):
    r.rule = ('abstract interpretation of operator>> on arbitrary bytes and of operator<< into arbitrary room, exceptions enabled and disabled, for every streamable type: every access inside the '
              'stream buffer, the object and its storage; position <= size and objects well formed (owned once, size <= capacity <= allocation, terminator) at every exit')
    r.trusted = TB
    import os
    analyse(r, ['memory.cc', 'strings.cc', 'roundtrip.cc'], hostile_exit, {'ownership', 'bounds', 'null', 'terminator', 'stream', 'alignment', 'overlap'}, pat=os.environ.get('PAT', '^P_(rd|wr)_'))
    r.minimum.update(operations=100, exits=1350)

#!/usr/bin/env python3
# Writes c19gen.go: pairs of a type for Amino and the protobuf message that is
# its counterpart, as protoc-gen-go would have written it.
import random, os
r = random.Random(19)
out = ['// Code generated by mkproto.py; DO NOT EDIT.', '', 'package main', '', 'import "time"', '']
# (Amino type, Amino tag, message type, encoding)
scalars = [
    ('int8', '', 'int32', 'zigzag32'), ('int16', '', 'int32', 'zigzag32'),
    ('int32', '', 'int32', 'varint'), ('int64', '', 'int64', 'varint'), ('int', '', 'int64', 'varint'),
    ('uint8', '', 'uint32', 'varint'), ('uint16', '', 'uint32', 'varint'), ('uint32', '', 'uint32', 'varint'),
    ('uint64', '', 'uint64', 'varint'), ('uint', '', 'uint64', 'varint'),
    ('bool', '', 'bool', 'varint'),
    ('NInt32', '', 'int32', 'varint'), ('NInt8', '', 'int32', 'zigzag32'), ('NUint64', '', 'uint64', 'varint'), ('NBool', '', 'bool', 'varint'),
    ('int32', 'binary:"fixed32"', 'int32', 'fixed32'), ('int64', 'binary:"fixed64"', 'int64', 'fixed64'),
    ('uint32', 'binary:"fixed32"', 'uint32', 'fixed32'), ('uint64', 'binary:"fixed64"', 'uint64', 'fixed64'),
    ('NInt64', 'binary:"fixed64"', 'int64', 'fixed64'),
    ('float32', 'amino:"unsafe"', 'float32', 'fixed32'), ('float64', 'amino:"unsafe"', 'float64', 'fixed64'),
]
lens = [('string', '', 'string', 'bytes'), ('NStr', '', 'string', 'bytes'), ('[]byte', '', '[]byte', 'bytes'), ('[4]byte', '', '[]byte', 'bytes'), ('NBytes', '', '[]byte', 'bytes')]
pairs = []
covered = []
def field(i, n, force=None):
    k = r.randrange(100)
    msgs = [j for j in range(n)]
    def lst(t):
        return '[%d]%s' % (r.choice([1, 2, 3]), t) if r.randrange(4) == 0 else '[]' + t
    if force is not None:
        kind, x = force
    elif k < 30: kind, x = 's', r.choice(scalars)
    elif k < 42: kind, x = 'b', r.choice(lens)
    elif k < 47: kind, x = 't', None
    elif k < 64: kind, x = 'ls', r.choice(scalars)
    elif k < 74: kind, x = 'lb', r.choice(lens)
    elif k < 79: kind, x = 'lt', None
    else: kind, x = 'm', None
    name = 'F%d' % i
    def row(at, atag, pt, enc, rep, packed):
        tag = '%s,%d,%s%s,name=%s,proto3' % (enc, i, 'rep' if rep else 'opt', ',packed' if packed else '', name)
        return ('\t%s %s' % (name, at) + (' `%s`' % atag if atag else ''), '\t%s %s `protobuf:"%s"`' % (name, pt, tag))
    if kind == 's': return row(x[0], x[1], x[2], x[3], False, False)
    if kind == 'b': return row(x[0], x[1], x[2], x[3], False, False)
    if kind == 't': return row(r.choice(['time.Time', 'time.Time', '*time.Time']), '', '*PTime', 'bytes', False, False)
    if kind == 'ls':
        while 'uint8' in x[0]: x = r.choice(scalars)
        return row(lst(x[0]), x[1], '[]' + x[2], x[3], True, True)
    if kind == 'lb': return row(lst(x[0]), x[1], '[]' + x[2], x[3], True, False)
    if kind == 'lt': return row(lst(r.choice(['time.Time', '*time.Time'])), '', '[]*PTime', 'bytes', True, False)
    # messages
    j = r.choice(msgs + [n]) if msgs else n
    at, pt = 'PA%d' % j, 'PM%d' % j
    if j == n: # itself: by pointer or list
        if r.randrange(2): return row('*' + at, '', '*' + pt, 'bytes', False, False)
        return row('[]' + r.choice(['', '*']) + at, '', '[]*' + pt, 'bytes', True, False)
    c = r.randrange(4)
    if c == 0: return row(at, '', '*' + pt, 'bytes', False, False)
    if c == 1: return row('*' + at, '', '*' + pt, 'bytes', False, False)
    return row(lst(r.choice(['', '*']) + at), '', '[]*' + pt, 'bytes', True, False)
forced = [('s', x) for x in scalars] + [('b', x) for x in lens] + [('ls', x) for x in scalars] + [('lb', x) for x in lens] + [('t', None), ('lt', None)]
N = 50
for n in range(N):
    cnt = r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12, 20])
    if n == 0: cnt = 0
    a, p = ['type PA%d struct {' % n], ['type PM%d struct {' % n]
    for i in range(1, cnt + 1):
        f = None
        if n > 0 and forced and r.randrange(3): f = forced.pop()
        x, y = field(i, n, f)
        a.append(x); p.append(y)
    a.append('}')
    p += ['\tXXX_unrecognized []byte', '}']
    out += a + [''] + p + ['', 'func (m *PM%d) Reset() { *m = PM%d{} }' % (n, n), 'func (m *PM%d) String() string { return "" }' % n, 'func (*PM%d) ProtoMessage() {}' % n, '']
assert not forced, len(forced)
out += ['var protoPairs = []protoPair{']
out += ['\t{PA%d{}, &PM%d{}},' % (n, n) for n in range(N)]
out += ['}', '']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c19gen.go'), 'w').write('\n'.join(out))

"""Independent reader/writer of the 1C container format (the oracle; shares nothing with the code under test).

header   : 32 bit: i first_empty, i default_block, i count, i 0         (16 bytes), end marker 7fffffff
           64 bit: Q first_empty, i default_block, i count, i 0         (20 bytes), end marker ff*8
block    : \r\n SIZE8 ' ' BLOCK8 ' ' NEXT8 ' ' \r\n (hex; 16 digits for 64 bit), then BLOCK bytes
document : chain of blocks; SIZE of the first is the document size
TOC      : document right behind the header, records (attr offset, data offset, end marker)
attrs    : Q created, Q modified, i 0, name utf-16le, 4 zero bytes
"""
import struct


class Fmt32:
    end = 0x7fffffff
    head = '<4i'
    idx = '<3i'
    w = 8
    toc_block = 0x200


class Fmt64:
    end = 0xffffffffffffffff
    head = '<Q3i'
    idx = '<3Q'
    w = 16
    toc_block = 0x10000


def parse(data, base, fmt):
    """-> (ordered list of (name, bytes), end offset of the last byte used relative to base)"""
    hs = struct.calcsize(fmt.head)
    first, default_block, count, _ = struct.unpack_from(fmt.head, data, base)
    if first != fmt.end:
        raise ValueError(f'bad container marker {first:x}')
    used = [0]

    def doc(off):
        out = b''
        size = None
        seen = set()
        while True:
            if off in seen:
                raise ValueError('block chain is cyclic')
            seen.add(off)
            p = base + off
            hl = 2 + 3 * (fmt.w + 1) + 2
            h = data[p:p + hl]
            if len(h) != hl or h[:2] != b'\r\n' or h[-2:] != b'\r\n' or any(h[2 + (fmt.w + 1) * (k + 1) - 1:][:1] != b' ' for k in range(3)):
                raise ValueError(f'bad block header at {off}: {h!r}')
            s, b, n = (int(h[2 + (fmt.w + 1) * k:][:fmt.w], 16) for k in range(3))
            if size is None:
                size = s
            body = data[p + hl:p + hl + b]
            if len(body) != b:
                raise ValueError(f'block at {off} runs out of the file: {len(body)} of {b}')
            used[0] = max(used[0], off + hl + b)
            out += body
            if n == fmt.end or len(out) >= size:
                break
            off = n
        if len(out) < size:
            raise ValueError(f'document of {size} bytes has only {len(out)}')
        return out[:size]

    rec = struct.calcsize(fmt.idx)
    toc = doc(hs)
    if len(toc) % rec:
        raise ValueError('bad table of contents size')
    files = []
    for i in range(0, len(toc), rec):
        a, d, e = struct.unpack_from(fmt.idx, toc, i)
        if e != fmt.end:
            raise ValueError('bad table of contents record')
        at = doc(a)
        name = at[20:].decode('utf-16-le').partition('\0')[0]
        files.append((name, doc(d) if d != fmt.end else b''))
    return files, used[0]


def write(files, fmt, frag, rng, tail=None):
    """containers as other producers write them: documents in several blocks of any size, in any place.
    files: list of (name, bytes); frag: block-size choices for data documents"""
    hs = struct.calcsize(fmt.head)
    out = bytearray(struct.pack(fmt.head, fmt.end, 0x200, len(files), 0))

    def header(size, block, nxt):
        return ('\r\n' + ' '.join(f'{v:0{fmt.w}x}' for v in (size, block, nxt)) + ' \r\n').encode()

    hl = len(header(0, 0, 0))
    rec = struct.calcsize(fmt.idx)
    toc_size = rec * len(files)
    toc_at = len(out)
    out += bytes(hl + max(toc_size, fmt.toc_block))

    def put(body, pad=0):
        """returns the offset of the first block"""
        parts, p = [], 0
        while True:
            n = rng.choice(frag) if frag else len(body)
            n = max(1, n)
            parts.append(body[p:p + n])
            p += n
            if p >= len(body):
                break
        offs = []
        where = len(out)
        sizes = []
        for k, part in enumerate(parts):
            b = max(len(part), pad, 1)
            sizes.append(b)
            offs.append(where)
            where += hl + b
        for k, part in enumerate(parts):
            nxt = offs[k + 1] if k + 1 < len(parts) else fmt.end
            out.extend(header(len(body) if k == 0 else 0, sizes[k], nxt))
            out.extend(part + bytes(sizes[k] - len(part)))
        return offs[0]

    recs = b''
    for name, data in files:
        at = struct.pack('<QQi', 630000000000000, 630000000000000, 0) + name.encode('utf-16-le') + (bytes(4) if tail is None else b'\0\0' + tail.encode('utf-16-le'))
        a = put(at)
        d = put(data, pad=0x200 if not frag else 0)
        recs += struct.pack(fmt.idx, a, d, fmt.end)
    out[toc_at:toc_at + hl] = header(toc_size, max(toc_size, fmt.toc_block), fmt.end)
    out[toc_at + hl:toc_at + hl + len(recs)] = recs
    return bytes(out)

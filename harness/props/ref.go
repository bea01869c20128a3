package props

// Reference MessagePack encoding, written from the specification.

func be(n uint64, size int) []byte {
	out := make([]byte, size)
	for i := range out {
		out[i] = byte(n >> (8 * uint(size-1-i)))
	}
	return out
}

func hdr(code byte, n uint64, size int) []byte { return append([]byte{code}, be(n, size)...) }

func refLong(n int64) []byte {
	u := uint64(n)
	switch {
	case n >= 0 && n < 128:
		return []byte{byte(n)}
	case n >= 0 && n < 1<<8:
		return hdr(0xcc, u, 1)
	case n >= 0 && n < 1<<16:
		return hdr(0xcd, u, 2)
	case n >= 0 && n < 1<<32:
		return hdr(0xce, u, 4)
	case n >= 0:
		return hdr(0xcf, u, 8)
	case n >= -32:
		return []byte{byte(n)}
	case n >= -1<<7:
		return hdr(0xd0, u, 1)
	case n >= -1<<15:
		return hdr(0xd1, u, 2)
	case n >= -1<<31:
		return hdr(0xd2, u, 4)
	default:
		return hdr(0xd3, u, 8)
	}
}

func refStr(n uint64) []byte {
	switch {
	case n < 32:
		return []byte{0xa0 | byte(n)}
	case n < 1<<8:
		return hdr(0xd9, n, 1)
	case n < 1<<16:
		return hdr(0xda, n, 2)
	default:
		return hdr(0xdb, n, 4)
	}
}

func refBin(n uint64) []byte {
	switch {
	case n < 1<<8:
		return hdr(0xc4, n, 1)
	case n < 1<<16:
		return hdr(0xc5, n, 2)
	default:
		return hdr(0xc6, n, 4)
	}
}

func refExt(n uint64, tag byte) []byte {
	switch n {
	case 1:
		return []byte{0xd4, tag}
	case 2:
		return []byte{0xd5, tag}
	case 4:
		return []byte{0xd6, tag}
	case 8:
		return []byte{0xd7, tag}
	case 16:
		return []byte{0xd8, tag}
	}
	switch {
	case n < 1<<8:
		return append(hdr(0xc7, n, 1), tag)
	case n < 1<<16:
		return append(hdr(0xc8, n, 2), tag)
	default:
		return append(hdr(0xc9, n, 4), tag)
	}
}

func refList(n uint64) []byte {
	switch {
	case n < 16:
		return []byte{0x90 | byte(n)}
	case n < 1<<16:
		return hdr(0xdc, n, 2)
	default:
		return hdr(0xdd, n, 4)
	}
}

func refMap(n uint64) []byte {
	switch {
	case n < 16:
		return []byte{0x80 | byte(n)}
	case n < 1<<16:
		return hdr(0xde, n, 2)
	default:
		return hdr(0xdf, n, 4)
	}
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

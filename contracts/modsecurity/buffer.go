package modsecurity

import "bytes"

// bufContent is what the buffer has accepted.
func bufContent(b *buffer) string {
	if b.fileBuf != nil {
		return vDataFile(b.fileBuf)
	}
	return vDataBuf(b.memBuf)
}

// bufPos is where the next read starts.
func bufPos(b *buffer) int {
	if !b.readed {
		return 0
	}
	if b.fileBuf != nil {
		return vPosFile(b.fileBuf)
	}
	return vPosReader(b.memReader)
}

// bufOK is the invariant of a buffer.
func bufOK(b *buffer) bool {
	if b.memBuf == nil || b.memLimit < 0 || b.length != int64(len(bufContent(b))) {
		return false
	}
	if b.length > b.fileLimit && b.length != 0 {
		return false
	}
	if !vDistinct(b.memBuf, b.fileBuf) || !vDistinct(b.memBuf, b.memReader) || !vDistinct(b.fileBuf, b.memReader) {
		return false
	}
	if b.fileBuf == nil {
		if b.length > b.memLimit {
			return false
		}
	} else {
		if b.memLimit > b.length || vDataBuf(b.memBuf) != vDataFile(b.fileBuf)[:b.memLimit] {
			return false
		}
		if !b.readed && int64(vPosFile(b.fileBuf)) != b.length {
			return false
		}
	}
	if b.readed {
		return b.memReader != nil && vDataReader(b.memReader) == vDataBuf(b.memBuf) && vPosReader(b.memReader) >= 0 && bufPos(b) >= 0
	}
	return true
}

//@ client
//@ prop C10
func verifBufferNew(dir string, memLimit, fileLimit int64) {
	vAssume(memLimit >= 0)
	b, err := newBuffer(dir, memLimit, fileLimit)
	if err != nil {
		return
	}
	vReach("a buffer is made")
	vAssert(bufOK(b) && bufContent(b) == "" && b.Len() == 0 && bufPos(b) == 0, "a new buffer is empty")
	vAssert(b.memLimit == memLimit && b.fileLimit == fileLimit, "a new buffer has the limits asked for")
	_, err = b.Write(nil)
	vAssert(vIOFailed() || err == nil || fileLimit < 0, "a new buffer accepts writes")
}

// Every write, in every state a buffer can be in.
//@ client
//@ prop C10
func verifBufferWrite(b *buffer, p []byte) {
	vAssume(b != nil && bufOK(b))
	c, was, l := bufContent(b), b.readed, b.fileLimit
	n, err := b.Write(p)
	if vIOFailed() {
		vAssert(err != nil, "a failing temporary file is reported")
		return
	}
	vReach("the file system works")
	vAssert((err == nil) == (!was && int64(len(c)+len(p)) <= l), "a write is accepted iff it stays within the limit and reading has not begun")
	if err == nil {
		vAssert(n == len(p), "an accepted write takes all its bytes")
		vAssert(bufContent(b) == c+string(p), "an accepted write appends its bytes")
	} else {
		vAssert(n == 0, "a refused write takes no byte")
		vAssert(bufContent(b) == c, "a refused write changes nothing")
	}
	vAssert(b.Len() == int64(len(bufContent(b))), "the length is the number of accepted bytes")
	vAssert(b.readed == was, "writing does not begin reading")
	vAssert(b.fileLimit == l, "the limit stays")
	vAssert(bufOK(b), "the invariant is kept by Write")
}

//@ client
//@ prop C10
func verifBufferRead(b *buffer, n int) {
	vAssume(b != nil && bufOK(b) && n >= 0)
	c, r := bufContent(b), bufPos(b)
	p := make([]byte, n)
	k, err := b.Read(p)
	if vIOFailed() {
		return
	}
	vReach("the file system works")
	vAssert(0 <= k && k <= n, "a read gives at most what was asked for")
	vAssert(bufContent(b) == c && b.Len() == int64(len(c)), "reading changes no content")
	vAssert(bufPos(b) == r+k, "reading advances by what was read")
	if k > 0 {
		vAssert(r+k <= len(c) && string(p[:k]) == c[r:r+k], "a read gives the next bytes of the content")
	}
	vAssert(err == nil || r >= len(c), "a read only fails at the end")
	vAssert(k > 0 || n == 0 || r >= len(c), "a read that can give something does")
	vAssert(n == 0 || err != nil || k > 0, "the end is reported")
	_, werr := b.Write([]byte("x"))
	vAssert(werr != nil, "after reading began writes are refused")
	vAssert(bufContent(b) == c, "after reading began writes change nothing")
	vAssert(bufOK(b), "the invariant is kept by Read")
}

//@ client
//@ prop C10
func verifBufferSeek(b *buffer, off int64, whence int) {
	vAssume(b != nil && bufOK(b))
	c, r := bufContent(b), int64(bufPos(b))
	n, err := b.Seek(off, whence)
	if vIOFailed() {
		return
	}
	vReach("the file system works")
	vAssert(bufContent(b) == c, "seeking changes no content")
	to := off
	if whence == 1 {
		to = r + off
	}
	if whence == 2 {
		to = int64(len(c)) + off
	}
	if whence >= 0 && whence <= 2 && to >= 0 {
		vAssert(err == nil && n == to && int64(bufPos(b)) == to, "seeking goes to the position named")
	}
	vAssert(bufOK(b), "the invariant is kept by Seek")
}

//@ client
//@ prop C10
func verifBufferWriteTo(b *buffer) {
	vAssume(b != nil && bufOK(b))
	c, r := bufContent(b), bufPos(b)
	var w bytes.Buffer
	n, err := b.WriteTo(&w)
	if vIOFailed() {
		return
	}
	vReach("the file system works")
	vAssert(err == nil, "WriteTo does not fail")
	if r <= len(c) {
		vAssert(w.String() == c[r:] && n == int64(len(c)-r), "WriteTo gives the rest of the content")
	}
	vAssert(bufContent(b) == c, "WriteTo changes no content")
	vAssert(bufOK(b), "the invariant is kept by WriteTo")
}

//@ client
//@ prop C10
func verifBufferString(b *buffer) {
	vAssume(b != nil && bufOK(b))
	c, inFile, r, m := bufContent(b), b.fileBuf != nil, bufPos(b), b.memLimit
	s, err := b.String()
	p, err2 := b.Bytes()
	vAssert(string(p) == s && (err == nil) == (err2 == nil), "Bytes and String agree")
	vAssert((err != nil) == inFile, "the in-memory form is refused iff the content went to a file")
	if err == nil {
		vAssert(s == c, "the in-memory form is the whole content")
	} else {
		vAssert(s == c[:m], "the in-memory form of a file is its first bytes")
	}
	if vIOFailed() {
		return
	}
	vReach("the file system works")
	vAssert(bufContent(b) == c && bufPos(b) == r, "asking for the in-memory form changes neither content nor position")
	vAssert(bufOK(b), "the invariant is kept by String and Bytes")
}

//@ client
//@ prop C10
func verifBufferClose(b *buffer) {
	vAssume(b != nil && bufOK(b))
	err := b.Close()
	vAssert(err == nil || vIOFailed(), "closing only fails when the file does")
	vReach("closed")
}

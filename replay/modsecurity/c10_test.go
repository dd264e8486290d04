package modsecurity

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"testing"
)

func TestReplayC10(t *testing.T) {
	s := vNewSearch(t)
	dir, err := os.MkdirTemp("", "c10")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	next := byte(0)
	for round := 0; s.More(4000); round++ {
		if round%200 == 0 {
			os.RemoveAll(dir)
		}
		mem, file := int64(s.R.Intn(12)), int64(s.R.Intn(24))
		hist := fmt.Sprintf("newBuffer(mem=%d, total=%d)", mem, file)
		var content []byte
		pos, reading := 0, false
		b, err := newBuffer(dir, mem, file)
		if err != nil {
			s.Fail("%s: %v", hist, err)
		}
		bad := func(f string, a ...interface{}) {
			s.Fail("%s; content so far %q: %s", hist, content, fmt.Sprintf(f, a...))
		}
		steps := 1 + s.R.Intn(8)
		for k := 0; k < steps; k++ {
			op := s.R.Intn(9)
			if k < steps/2 {
				op = 0
			}
			p := vPanics(func() {
				switch op {
				case 0, 1, 2:
					w := make([]byte, s.R.Intn(9))
					for i := range w {
						next++
						w[i] = next
					}
					hist += fmt.Sprintf("; Write(%d bytes)", len(w))
					keep := string(w)
					n, err := b.Write(w)
					ok := !reading && int64(len(content)+len(w)) <= file
					if ok != (err == nil) {
						bad("error %v", err)
					}
					if ok {
						content = append(content, keep...)
						if n != len(w) {
							bad("took %d", n)
						}
					} else if n != 0 {
						bad("refused write took %d", n)
					}
					for i := range w {
						w[i] = 0xee // the buffer must have its own copy
					}
				case 3, 4:
					r := make([]byte, s.R.Intn(7))
					hist += fmt.Sprintf("; Read(%d)", len(r))
					reading = true
					n, err := b.Read(r)
					left := 0
					if pos < len(content) {
						left = len(content) - pos
					}
					want := len(r)
					if left < want {
						want = left
					}
					if n != want || n > 0 && !bytes.Equal(r[:n], content[pos:pos+n]) {
						bad("gives %q (%d, %v) at %d", r[:n], n, err, pos)
					}
					if err != nil && err != io.EOF || err == nil && len(r) > 0 && left == 0 {
						bad("gives error %v with %d left", err, left)
					}
					pos += n
				case 5:
					off, wh := int64(s.R.Intn(12)-3), s.R.Intn(3)
					hist += fmt.Sprintf("; Seek(%d,%d)", off, wh)
					reading = true
					to := off
					if wh == 1 {
						to += int64(pos)
					} else if wh == 2 {
						to += int64(len(content))
					}
					n, err := b.Seek(off, wh)
					if to >= 0 {
						if err != nil || n != to {
							bad("gives %d, %v", n, err)
						}
						pos = int(to)
					} else if err == nil {
						bad("accepts a negative position")
					}
				case 6:
					hist += "; WriteTo"
					reading = true
					var w bytes.Buffer
					n, err := b.WriteTo(&w)
					var want []byte
					if pos < len(content) {
						want = content[pos:]
						pos = len(content)
					}
					if err != nil || n != int64(len(want)) || !bytes.Equal(w.Bytes(), want) {
						bad("gives %q (%d, %v), not %q", w.Bytes(), n, err, want)
					}
				default:
					hist += "; String/Bytes"
					reading = true
					str, err := b.String()
					by, err2 := b.Bytes()
					if str != string(by) || (err == nil) != (err2 == nil) {
						bad("String %q %v, Bytes %q %v", str, err, by, err2)
					}
					if int64(len(content)) > mem {
						if err == nil || str != string(content[:mem]) {
							bad("in-memory form of a file is %q, %v", str, err)
						}
					} else if err != nil || str != string(content) {
						bad("in-memory form is %q, %v", str, err)
					}
				}
				if b.Len() != int64(len(content)) {
					bad("length %d", b.Len())
				}
			})
			if p != "" {
				bad("%s", p)
			}
		}
		if p := vPanics(func() {
			b.Seek(0, 0)
			all, err := io.ReadAll(b)
			if err != nil || !bytes.Equal(all, content) {
				bad("reading from the start gives %q, %v", all, err)
			}
			if err := b.Close(); err != nil {
				bad("closing: %v", err)
			}
		}); p != "" {
			bad("%s", p)
		}
	}
}

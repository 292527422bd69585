//go:build go1.23

package zzverifsim

import (
	"bytes"
	"compress/zlib"
	"io"
	"strings"
	"unicode/utf16"
)

// pdfText returns the lines of text a PDF file shows, in the order they were
// put. The writer puts each as one string of UTF-16BE codes.
func pdfText(b []byte) string {
	var out strings.Builder
	for {
		i := bytes.Index(b, []byte("stream"))
		if i < 0 {
			break
		}
		b = b[i+6:]
		for len(b) > 0 && (b[0] == '\r' || b[0] == '\n') {
			b = b[1:]
		}
		j := bytes.Index(b, []byte("endstream"))
		if j < 0 {
			break
		}
		if z, err := zlib.NewReader(bytes.NewReader(b[:j])); err == nil {
			p, _ := io.ReadAll(z)
			showStrings(p, &out)
		}
		b = b[j+9:]
	}
	return out.String()
}

// showStrings decodes every "(...) Tj" of a content stream, and every
// justified "[(...) n (...)] TJ".
func showStrings(p []byte, out *strings.Builder) {
	inArr := false
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '[':
			inArr = true
		case ']':
			if inArr && bytes.HasPrefix(bytes.TrimLeft(p[i+1:], " "), []byte("TJ")) {
				out.WriteByte('\n')
			}
			inArr = false
		}
		if p[i] != '(' {
			continue
		}
		var s []byte
		j := i + 1
		for ; j < len(p) && p[j] != ')'; j++ {
			c := p[j]
			if c == '\\' && j+1 < len(p) {
				j++
				switch c = p[j]; c {
				case 'n':
					c = '\n'
				case 'r':
					c = '\r'
				case 't':
					c = '\t'
				}
			}
			s = append(s, c)
		}
		if inArr || bytes.HasPrefix(bytes.TrimLeft(p[min(j+1, len(p)):], " "), []byte("Tj")) {
			var u []uint16
			for k := 0; k+1 < len(s); k += 2 {
				u = append(u, uint16(s[k])<<8|uint16(s[k+1]))
			}
			out.WriteString(string(utf16.Decode(u)))
			if !inArr {
				out.WriteByte('\n')
			}
		}
		i = j
	}
}

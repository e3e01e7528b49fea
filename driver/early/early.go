// Package early makes crypto/rand.Reader the source that can be scripted, before the library is initialised: packages are
// initialised in the order of their paths once what they import is, and the library imports packages that come later.
// So a library that looks the reader up once sees the same one as a library that looks it up at each call.
package early

import (
	"crypto/rand"
	"io"
)

// Source is the random source of the process: one reader all the time, scripted or not
type Source struct {
	Real, Now io.Reader
}

func (s *Source) Read(p []byte) (int, error) {
	if s.Now != nil {
		return s.Now.Read(p)
	}
	return s.Real.Read(p)
}

// The is the source
var The = &Source{Real: rand.Reader}

func init() {
	rand.Reader = The
}

// With lets f run on a script
func (s *Source) With(sc io.Reader, f func()) {
	s.Now = sc
	f()
	s.Now = nil
}

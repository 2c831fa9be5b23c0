package bodyh

import (
	"fmt"
	"io"
	"os"

	"github.com/chronos-tachyon/morehttp/body"
)

// probePipe tests for the recorded defect: a body over the read end of a pipe is
// silently empty, because Stat reports size 0 for it.
func probePipe() (present bool, what string, err error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return false, "", err
	}
	defer pr.Close()
	go func() {
		pw.Write([]byte("hello"))
		pw.Close()
	}()
	b, err := body.FromReader(pr)
	if err != nil {
		return false, "", nil // rejected: the data is not silently lost
	}
	got, err := io.ReadAll(b)
	b.Close()
	switch {
	case err == nil && string(got) == "hello":
		return false, "", nil
	case err == nil && len(got) == 0:
		return true, "body.FromReader over the read end of an os.Pipe yields an empty body, because Stat reports size 0 for a pipe", nil
	}
	return false, "", fmt.Errorf("a body over an os.Pipe holding %q delivered %q, %v", "hello", got, err)
}

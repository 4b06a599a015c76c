package kit

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"syscall"

	gerr "github.com/ixtendio/gofre/errors"
	"verifharness/sym"
)

// Rich is an error with the methods that errors of other packages have.
type Rich struct {
	Msg   string
	Code  int
	Inner error
}

func (r Rich) Error() string                { return r.Msg }
func (r Rich) StatusCode() int              { return r.Code }
func (r Rich) HTTPStatus() int              { return r.Code }
func (r Rich) HttpStatusCode() int          { return r.Code }
func (r Rich) Status() int                  { return r.Code }
func (r Rich) Timeout() bool                { return true }
func (r Rich) Temporary() bool              { return true }
func (r Rich) NotFound() bool               { return true }
func (r Rich) Title() string                { return "title" }
func (r Rich) Message() string              { return "message" }
func (r Rich) String() string               { return "string" }
func (r Rich) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (r Rich) MarshalJSON() ([]byte, error) { return []byte(`"json"`), nil }
func (r Rich) Unwrap() error                { return r.Inner }

// KnownErrors are errors of the standard library, and errors of every kind it has. None of them is one of gofre's.
func KnownErrors() []error {
	return []error{
		context.DeadlineExceeded, context.Canceled, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite,
		fs.ErrNotExist, fs.ErrPermission, fs.ErrExist, fs.ErrClosed, os.ErrDeadlineExceeded,
		http.ErrAbortHandler, http.ErrNoCookie, http.ErrMissingFile, http.ErrNotSupported, http.ErrNoLocation, http.ErrHandlerTimeout, http.ErrBodyNotAllowed,
		http.ErrServerClosed, http.ErrBodyReadAfterClose, http.ErrContentLength, http.ErrLineTooLong, http.ErrNotMultipart, http.ErrMissingBoundary,
		bufio.ErrTooLong, net.ErrClosed, strconv.ErrSyntax, strconv.ErrRange,
		&http.MaxBytesError{Limit: 4}, &http.ProtocolError{ErrorString: "protocol"}, &net.DNSError{Err: "no such host", Name: "x", IsTimeout: true},
		&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("refused")}, &url.Error{Op: "Get", URL: "/x", Err: errors.New("refused")},
		&fs.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist}, &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}, syscall.EPIPE, syscall.ENOENT,
		&strconv.NumError{Func: "Atoi", Num: "x", Err: strconv.ErrSyntax}, &json.SyntaxError{Offset: 1}, &json.InvalidUnmarshalError{},
		fmt.Errorf("wrapped: %w", io.EOF), Rich{"rich", 418, nil}, &Rich{"pointer", 404, fs.ErrNotExist},
	}
}

// NKnownErrors is how many.
const NKnownErrors = 43

// AnyError is any of the known errors or one of gofre's own.
func AnyError(name string) error {
	all := append(KnownErrors(), gerr.ErrUnauthorizedRequest, gerr.ErrAccessDenied, gerr.ErrWrongCredentials, gerr.NewBadRequestWithMessage("bad"), gerr.NewObjectNotFoundWithMessage("missing"))
	sym.Assert(len(all) == NKnownErrors+5, "none is left out")
	return all[sym.Choose(name, NKnownErrors+5)]
}

package http

import (
	"net/http"
	"time"

	"github.com/gofiber/fiber/v2"
)

// RouterForVerification returns what serves the requests.
func (s *Service) RouterForVerification() *fiber.App { return s.router }

// ForwardThroughForVerification makes forwarded requests take another way.
func (s *Service) ForwardThroughForVerification(t http.RoundTripper) {
	s.h.proxy = NewProxy(&http.Client{Timeout: 10 * time.Second, Transport: t}, s.addr)
}

// Package proc runs server processes.
package proc

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"doqverif/core"
	"doqverif/seq"

	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
)

// Server is a process of the real server, with its data in a directory of its own.
type Server struct {
	ID    string
	Host  string // of raft and gRPC
	HTTP  int
	GRPC  int
	Raft  int
	Join  string
	Dir   string
	Flags []string
	Env   []string
	// Prefix is what starts the server
	Prefix []string
	// Bare servers get no other flags
	Bare  bool
	cmd   *exec.Cmd
	done  chan struct{}
	mu    sync.Mutex
	meant bool // that it ends
	err   error
	conn  *grpc.ClientConn
}

// Binary returns the path of the server.
func Binary() string {
	b := os.Getenv("DOQ_SERVER")
	if b == "" {
		panic("harness: there is no server")
	}
	return b
}

// Start starts the process.
func (s *Server) Start() {
	if err := os.MkdirAll(s.Dir, 0700); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	args := []string{}
	if !s.Bare {
		args = append(args, "--cluster.node_id", s.ID, "--http.port", fmt.Sprint(s.HTTP), "--grpc.address", fmt.Sprintf("%s:%d", s.Host, s.GRPC),
			"--raft.address", fmt.Sprintf("%s:%d", s.Host, s.Raft), "--storage.data_dir", filepath.Join(s.Dir, "data"), "--logging.level", "error")
	}
	if s.Join != "" {
		args = append(args, "--cluster.join_addr", s.Join)
	}
	args = append(args, s.Flags...)
	f, err := os.OpenFile(s.logPath(), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer f.Close()
	args = append(append(append([]string{}, s.Prefix...), Binary()), args...)
	s.cmd = exec.Command(args[0], args[1:]...)
	s.cmd.Dir = s.Dir
	s.cmd.Stderr = f
	s.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=4")
	s.cmd.Env = append(s.cmd.Env, s.Env...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	s.meant = false
	s.done = make(chan struct{})
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	done, cmd := s.done, s.cmd
	go func() {
		err := cmd.Wait()
		s.mu.Lock()
		s.err = err
		s.mu.Unlock()
		close(done)
	}()
	core.Touch()
}

func (s *Server) logPath() string { return filepath.Join(s.Dir, "stderr") }

// Log returns the end of what the server printed to standard error.
func (s *Server) Log() string {
	data, _ := os.ReadFile(s.logPath())
	if i := strings.Index(string(data), "panic:"); i >= 0 && len(data)-i < 1<<20 {
		data = data[i:]
		return string(data[:min(len(data), 8000)])
	}
	return string(data[max(0, len(data)-4000):])
}

// FullLog returns all that it printed there.
func (s *Server) FullLog() string {
	data, _ := os.ReadFile(s.logPath())
	return string(data)
}

// Dead tells if the process ended by itself.
func (s *Server) Dead() (bool, string) {
	select {
	case <-s.done:
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.meant {
			return false, ""
		}
		return true, fmt.Sprintf("the process ended (%v)", s.err)
	default:
		return false, ""
	}
}

// Kill kills the process.
func (s *Server) Kill() {
	s.mu.Lock()
	s.meant = true
	s.mu.Unlock()
	s.cmd.Process.Kill()
	<-s.done
}

// Terminate asks the process to end, and kills it if it does not.
func (s *Server) Terminate(limit time.Duration) {
	s.mu.Lock()
	s.meant = true
	s.mu.Unlock()
	s.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-s.done:
	case <-time.After(limit):
		s.Kill()
	}
}

// Stopped tells if the process was not started or has ended.
func (s *Server) Stopped() bool {
	if s.done == nil {
		return true
	}
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// Pause stops the process for a while.
func (s *Server) Pause(d time.Duration) {
	s.cmd.Process.Signal(syscall.SIGSTOP)
	time.Sleep(d)
	s.cmd.Process.Signal(syscall.SIGCONT)
}

// Client returns a client of the gRPC service.
func (s *Server) Client() pb.DOQClient {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.conn == nil {
		c, err := grpc.Dial(fmt.Sprintf("passthrough:///%s:%d", s.Host, s.GRPC), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		s.conn = c
	}
	return pb.NewDOQClient(s.conn)
}

// Hangup forgets the connection of the client.
func (s *Server) Hangup() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.conn != nil {
		s.conn.Close()
		s.conn = nil
	}
}

// URL returns where the HTTP service is.
func (s *Server) URL(path string) string { return fmt.Sprintf("http://%s:%d%s", s.Host, s.HTTP, path) }

// Listening waits until the HTTP service answers.
func (s *Server) Listening(limit time.Duration) bool {
	hc := &http.Client{Timeout: 2 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	for until := time.Now().Add(limit); time.Now().Before(until); time.Sleep(20 * time.Millisecond) {
		core.Touch()
		if dead, _ := s.Dead(); dead {
			return false
		}
		if res, err := hc.Get(s.URL("/API/v1/queues")); err == nil {
			res.Body.Close()
			return true
		}
	}
	return false
}

// Backend uses the gRPC service of a server, for package seq.
type Backend struct {
	C       func() pb.DOQClient
	Timeout time.Duration
}

func (b *Backend) ctx() (context.Context, context.CancelFunc) {
	d := b.Timeout
	if d == 0 {
		d = 20 * time.Second
	}
	return context.WithTimeout(context.Background(), d)
}

func (b *Backend) Create(typ, name string) error {
	ctx, cancel := b.ctx()
	defer cancel()
	_, err := b.C().CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: typ})
	return err
}

func (b *Backend) Delete(name string) error {
	ctx, cancel := b.ctx()
	defer cancel()
	_, err := b.C().DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: name})
	return err
}

func (b *Backend) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	ctx, cancel := b.ctx()
	defer cancel()
	m, err := b.C().Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: group, Priority: prio, Content: content})
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.Id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (b *Backend) Dequeue(q string, ack bool) (seq.Msg, error) {
	ctx, cancel := b.ctx()
	defer cancel()
	m, err := b.C().Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: ack})
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.Id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (b *Backend) Ack(q string, id uint64) error {
	ctx, cancel := b.ctx()
	defer cancel()
	_, err := b.C().Ack(ctx, &pb.AckRequest{QueueName: q, Id: id})
	return err
}

func (b *Backend) Nack(q string, id uint64) error {
	ctx, cancel := b.ctx()
	defer cancel()
	_, err := b.C().Nack(ctx, &pb.NackRequest{QueueName: q, Id: id})
	return err
}

func (b *Backend) UpdatePriority(q string, id uint64, prio int64) error {
	ctx, cancel := b.ctx()
	defer cancel()
	_, err := b.C().UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: q, Id: id, Priority: prio})
	return err
}

func (b *Backend) Info(q string) (seq.Info, error) { return seq.Info{}, fmt.Errorf("not with gRPC") }
func (b *Backend) List() ([]seq.Info, error)       { return nil, fmt.Errorf("not with gRPC") }
func (b *Backend) Restart(kind int) (string, bool) { return "", false }
func (b *Backend) ReturnsGroup() bool              { return true }
func (b *Backend) Slack() time.Duration            { return 0 }
func (b *Backend) NewIDs() bool                    { return true }

// Text returns the message of an error of gRPC.
func Text(err error) string { return status.Convert(err).Message() }

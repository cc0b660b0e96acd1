package main

import (
	"embed"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"time"

	"doqverif/core"
	"doqverif/sim"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	doqhttp "github.com/kgantsov/doq/pkg/http"
)

// listen listens on one port of many hosts
func listen(hosts ...string) ([]net.Listener, int) {
	for try := 0; try < 100; try++ {
		l, err := net.Listen("tcp", hosts[0]+":0")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		port := l.Addr().(*net.TCPAddr).Port
		ls := []net.Listener{l}
		for _, x := range hosts[1:] {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x, port))
			if err != nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == len(hosts) {
			return ls, port
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("harness: no port")
}

// victim is the process of a cluster with all services
func victim() {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	shard := flag.Lookup("shard").Value.String()
	cs := flag.Lookup("case").Value.(flag.Getter).Get().(int)
	dir := os.Getenv("VICTIM_DIR")
	cl := sim.NewCluster(1, 600, 1)
	cl.Metrics = true
	var sh int
	fmt.Sscan(shard, &sh)
	host := func(i int) string { return fmt.Sprintf("127.%d.%d.%d", 110+sh, 1+cs%200, 1+i) }
	cl.AddrOf = func(i int) string { return host(i) + ":12000" }
	for i := 0; i < 3; i++ {
		n := cl.Add()
		n.DB.Close()
		db, err := badger.Open(badger.DefaultOptions(filepath.Join(dir, n.ID, "store")).WithLogger(nil).WithValueLogFileSize(64 << 20).WithNumMemtables(2))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		n.DB = db
		n.Dir = filepath.Join(dir, n.ID, "raft")
		if i > 0 {
			n.Peers = []string{cl.Nodes[0].Addr}
		}
		n.Start()
		if i == 0 {
			if !n.WaitLeader(60 * time.Second) {
				panic("harness: the first node does not lead")
			}
		} else if err := cl.Nodes[0].N.Join(n.ID, n.Addr); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		if err := n.N.InitIDGenerator(); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	hl, hport := listen(host(0), host(1), host(2))
	gl, gport := listen(host(0), host(1), host(2))
	var ready struct {
		HTTP, GRPC []string
		Apply      string
	}
	for i, n := range cl.Nodes {
		cfg := *n.Cfg
		cfg.Http.Port = fmt.Sprint(hport)
		app := doqhttp.NewHttpService(&cfg, n.N, embed.FS{}, embed.FS{}).RouterForVerification()
		app.Handler()
		go app.Server().Serve(hl[i])
		s, err := doqgrpc.NewGRPCServer(n.N, gport)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		go s.Serve(gl[i])
		ready.HTTP = append(ready.HTTP, fmt.Sprintf("%s:%d", host(i), hport))
		ready.GRPC = append(ready.GRPC, fmt.Sprintf("%s:%d", host(i), gport))
	}
	// a door for commands
	al, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	ready.Apply = "http://" + al.Addr().String() + "/"
	go http.Serve(al, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		data, _ := io.ReadAll(req.Body)
		for try := 0; ; try++ {
			l := cl.Leader()
			if l == nil {
				if try > 100 {
					http.Error(w, "no leader", 500)
					return
				}
				time.Sleep(100 * time.Millisecond)
				continue
			}
			f := l.N.Raft.Apply(data, 30*time.Second)
			err := f.Error()
			switch err {
			case nil:
				fmt.Fprintf(w, "%T", f.Response())
				return
			case hraft.ErrNotLeader, hraft.ErrLeadershipLost, hraft.ErrLeadershipTransferInProgress:
				if try < 100 {
					time.Sleep(100 * time.Millisecond)
					continue
				}
			}
			http.Error(w, err.Error(), 500)
			return
		}
	}))
	core.Touch()
	data, _ := json.Marshal(ready)
	fmt.Fprintf(out, "%s\n", data)
	select {}
}

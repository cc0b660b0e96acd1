// discw drives the discovery of nodes, their announcements and the joiner.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"time"

	"doqverif/core"

	"github.com/kgantsov/doq/pkg/cluster"
	discoveryv1 "k8s.io/api/discovery/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"
)

func main() {
	a := core.ParseArgs()
	core.Quiet()
	core.Watchdog(180 * time.Second)
	rep := core.NewReport()
	rep.Rule = "service discovery with generated names, an API server that keeps what nodes announce, and hosts that accept, refuse, hang or are not there; non-trivial: there are other nodes; distinct by names, announcements and answers"
	for k, v := range map[string]int64{"discovered": 3000, "published": 1500, "address-changes": 300, "join-accepted": 100, "join-exhausted": 30, "join-requests": 1000, "join-hanging": 8} {
		rep.Floor(k, v)
	}
	n, joins := 1600, 400
	if a.Tier == "thorough" {
		n, joins = 40000, 4000
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 100)
	core.Cases(a, n+joins, func(ci int) {
		r := core.Rand(a, "disc", ci)
		if ci < n {
			discover(rep, ci, r)
			return
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			join(rep, ci, r)
			core.Touch()
		}()
	})
	wg.Wait()
	rep.Write(a)
	os.Exit(0)
}

// api is a kubernetes API server that knows endpoint slices
type api struct {
	mu    sync.Mutex
	ns    string
	items map[string]*discoveryv1.EndpointSlice
	log   []string
	odd   string
}

func status(w http.ResponseWriter, code int, reason metav1.StatusReason) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	json.NewEncoder(w).Encode(metav1.Status{
		TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"},
		Status:   "Failure", Reason: reason, Code: int32(code), Message: string(reason),
	})
}

func (k *api) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.log = append(k.log, req.Method+" "+req.URL.Path)
	base := "/apis/discovery.k8s.io/v1/namespaces/" + k.ns + "/endpointslices"
	name, ok := strings.CutPrefix(req.URL.Path, base)
	if !ok {
		status(w, 404, metav1.StatusReasonNotFound)
		return
	}
	name = strings.TrimPrefix(name, "/")
	reply := func(code int, v any) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(code)
		json.NewEncoder(w).Encode(v)
	}
	body := func() *discoveryv1.EndpointSlice {
		data, _ := io.ReadAll(req.Body)
		s := &discoveryv1.EndpointSlice{}
		if err := json.Unmarshal(data, s); err != nil {
			k.odd = fmt.Sprintf("cannot read %q: %v", data, err)
			return nil
		}
		s.Kind, s.APIVersion = "EndpointSlice", "discovery.k8s.io/v1"
		return s
	}
	old := k.items[name]
	switch req.Method {
	case "GET":
		if name == "" {
			l := &discoveryv1.EndpointSliceList{TypeMeta: metav1.TypeMeta{Kind: "EndpointSliceList", APIVersion: "discovery.k8s.io/v1"}}
			for _, s := range k.items {
				l.Items = append(l.Items, *s)
			}
			reply(200, l)
		} else if old == nil {
			status(w, 404, metav1.StatusReasonNotFound)
		} else {
			reply(200, old)
		}
	case "DELETE":
		if old == nil {
			status(w, 404, metav1.StatusReasonNotFound)
			return
		}
		delete(k.items, name)
		reply(200, metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Success"})
	case "POST":
		s := body()
		if s == nil {
			status(w, 400, metav1.StatusReasonBadRequest)
			return
		}
		if k.items[s.Name] != nil {
			status(w, 409, metav1.StatusReasonAlreadyExists)
			return
		}
		k.items[s.Name] = s
		reply(201, s)
	case "PUT":
		s := body()
		if s == nil || old == nil {
			status(w, 404, metav1.StatusReasonNotFound)
			return
		}
		k.items[name] = s
		reply(200, s)
	default:
		k.odd = "the fake API server does not know " + req.Method
		status(w, 405, metav1.StatusReasonMethodNotAllowed)
	}
}

var stems = []string{"doq", "doq-1", "node", "a", "n", "queue-doq", "x1"}

// discover: nodes find themselves and the others, and announce themselves
func discover(rep *core.Report, ci int, r *rand.Rand) {
	bad := false
	var trace []string
	fail := func(kind, format string, args ...any) {
		if !bad {
			bad = true
			rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...), Trace: trace})
		}
	}
	ns, svc := []string{"default", "ns", "test-namespace"}[r.IntN(3)], []string{"doq", "q", "doq-doq"}[r.IntN(3)]
	// host names, none of which is one of another's domain
	names := map[string]bool{}
	stem := stems[r.IntN(len(stems))]
	for k := 1 + r.IntN(6); len(names) < k; {
		switch r.IntN(6) {
		case 0:
			names[fmt.Sprintf("%s-%d", stem, r.IntN(30))] = true
		case 1:
			names[fmt.Sprintf("%s%d", stem, r.IntN(3))] = true
		case 2:
			names[stem] = true
		case 3:
			names[fmt.Sprintf("%s-%d-%d", stem, r.IntN(3), r.IntN(3))] = true
		case 4:
			names[fmt.Sprintf("%d-%s", r.IntN(3), stem)] = true
		case 5:
			names[fmt.Sprintf("x%s", stem)] = true
		}
	}
	list := []string{}
	for n := range names {
		list = append(list, n)
	}
	sortStrings(list)
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	suffix := []string{"", "", ".", "." + svc + "-internal." + ns + ".svc.cluster.local.", "." + svc + "-internal." + ns + ".svc.cluster.local"}[r.IntN(5)]
	port := []string{"8000", "80", "65535", "9001"}[r.IntN(4)]
	entry := func(h string) string { return h + suffix + ":" + port }
	srvs := []*net.SRV{}
	for _, n := range list {
		p := 0
		fmt.Sscan(port, &p)
		srvs = append(srvs, &net.SRV{Target: n + suffix, Port: uint16(p)})
	}
	kube := &api{ns: ns, items: map[string]*discoveryv1.EndpointSlice{}}
	kube.items["other"] = &discoveryv1.EndpointSlice{ObjectMeta: metav1.ObjectMeta{Name: "other", Namespace: ns}}
	server := httptest.NewServer(kube)
	defer server.Close()
	ips := map[string]string{}
	ipErr := map[string]bool{}
	nodes := map[string]*cluster.Cluster{}
	for _, h := range list {
		ips[h] = fmt.Sprintf("10.%d.%d.%d", r.IntN(250), r.IntN(250), r.IntN(250))
		sd := cluster.SRVForVerification(ns, svc,
			func(service, proto, name string) (string, []*net.SRV, error) {
				if service != "" || proto != "" || strings.TrimSuffix(name, ".") != svc+"-internal."+ns+".svc.cluster.local" {
					return "", nil, fmt.Errorf("no such host %q %q %q", service, proto, name)
				}
				return name, srvs, nil
			},
			func(host string) ([]string, error) {
				if host != h {
					return nil, fmt.Errorf("no such host %q", host)
				}
				if ipErr[h] {
					return nil, errors.New("no answer")
				}
				return []string{ips[h]}, nil
			},
			func() (string, error) { return h, nil },
		)
		c := cluster.NewCluster(sd, ns, svc, port)
		c.KubeForVerification(func() (*rest.Config, error) {
			return &rest.Config{Host: server.URL, QPS: 1e6, Burst: 1e6}, nil
		})
		trace = append(trace, fmt.Sprintf("host %s of %v, addresses %s", h, list, entry(h)))
		if err := c.Init(); err != nil {
			fail("discovery", "%s: %v", h, err)
			return
		}
		if c.NodeID() != entry(h) {
			fail("identity", "the node on the host %s takes itself for %q, it is %q (of %v)", h, c.NodeID(), entry(h), list)
		}
		if want := h + suffix + ":12000"; c.RaftAddr() != want {
			fail("identity", "the node on the host %s has the raft address %q, it is %q", h, c.RaftAddr(), want)
		}
		want := map[string]bool{}
		for _, o := range list {
			if o != h {
				want[entry(o)] = true
			}
		}
		got := map[string]bool{}
		for _, o := range c.Hosts() {
			got[o] = true
		}
		if len(c.Hosts()) != len(want) || fmt.Sprint(got) != fmt.Sprint(want) {
			fail("peers", "the node on the host %s knows %v, they are %v", h, c.Hosts(), want)
		}
		rep.Count("discovered", 1)
		nodes[h] = c
	}
	known := map[string]string{}
	for h, ip := range ips {
		known[h] = ip
	}
	published := ""
	var sig strings.Builder
	fmt.Fprint(&sig, list, suffix)
	for s := 0; s < 3+r.IntN(5) && !bad; s++ {
		h := list[r.IntN(len(list))]
		if r.IntN(3) == 0 {
			ips[h] = fmt.Sprintf("10.%d.%d.%d", r.IntN(250), r.IntN(250), r.IntN(250))
			rep.Count("address-changes", 1)
		}
		if len(list) > 1 && r.IntN(4) == 0 {
			nodes[h].LeaderChanged(false)
			trace = append(trace, h+" stops leading")
			sig.WriteString("f")
		} else {
			ipErr[h] = r.IntN(6) == 0
			if !ipErr[h] {
				known[h] = ips[h]
			}
			nodes[h].LeaderChanged(true)
			trace = append(trace, fmt.Sprintf("%s leads, at %s (no answer: %v)", h, ips[h], ipErr[h]))
			published = h
			rep.Count("published", 1)
			fmt.Fprintf(&sig, "t%s", h)
			ipErr[h] = false
		}
		kube.mu.Lock()
		if kube.odd != "" {
			rep.Inconc("case %d: %s", ci, kube.odd)
			kube.mu.Unlock()
			return
		}
		if kube.items["other"] == nil {
			fail("published", "a slice of another service is gone")
		}
		total := 0
		for name, sl := range kube.items {
			if name == "other" {
				continue
			}
			total++
			trace = append(trace, fmt.Sprintf("published: %v port %v", sl.Endpoints, *sl.Ports[0].Port))
			if sl.Labels["kubernetes.io/service-name"] != svc {
				fail("published", "the slice does not belong to the service %s: %v", svc, sl.Labels)
			}
			if len(sl.Endpoints) != 1 || len(sl.Endpoints[0].Addresses) != 1 || published != "" && sl.Endpoints[0].Addresses[0] != known[published] {
				fail("published", "%s leads at %s, published is %v", published, known[published], sl.Endpoints)
			}
			if len(sl.Ports) != 1 || sl.Ports[0].Port == nil || fmt.Sprint(*sl.Ports[0].Port) != port {
				fail("published", "the port is %s, published is %v", port, sl.Ports)
			}
			if e := sl.Endpoints[0]; e.Conditions.Ready != nil && !*e.Conditions.Ready {
				fail("published", "the leader is published as not ready")
			}
			if h := sl.Endpoints[0].Hostname; h != nil && *h != published {
				fail("published", "the host name is %s, published is %s", published, *h)
			}
			if sl.AddressType != discoveryv1.AddressTypeIPv4 {
				fail("published", "the address type is %s", sl.AddressType)
			}
		}
		if want := map[bool]int{true: 1}[published != ""]; total != want {
			fail("published", "there are %d slices of the service, there must be %d: %v", total, want, kube.log)
		}
		kube.mu.Unlock()
	}
	rep.Done(len(list) > 1, sig.String(), func() any { return map[string]any{"case": ci, "trace": trace} })
	core.Touch()
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// join: the joiner asks hosts that behave in different ways
func join(rep *core.Report, ci int, r *rand.Rand) {
	var mu sync.Mutex
	var trace []string
	bad := false
	fail := func(kind, format string, args ...any) {
		if !bad {
			bad = true
			rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...), Trace: trace})
		}
	}
	k := 1 + r.IntN(4)
	id, addr := []string{"node-1:8000", "n", "doq-0.doq-internal.default.svc.cluster.local.:8000", "é\"<&>"}[r.IntN(4)], "host:12000"
	var hosts []string
	var order []int
	accept := make([]int, k) // the attempt that is accepted
	done := make(chan struct{})
	hang := -1
	if r.IntN(10) == 0 {
		hang = r.IntN(k)
	}
	willWork := false
	var servers []*httptest.Server
	absent := make([]bool, k)
	for i := 0; i < k; i++ {
		accept[i] = []int{1, 2, 3, 99, 99, 99}[r.IntN(6)]
		absent[i] = i != hang && r.IntN(6) == 0
		if hang >= 0 {
			absent[i] = false
			accept[i] = 99
		}
		tries := 0
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			data, err := io.ReadAll(req.Body)
			mu.Lock()
			tries++
			try := tries
			order = append(order, i)
			trace = append(trace, fmt.Sprintf("host %d gets %s %s %s", i, req.Method, req.URL, data))
			var b map[string]string
			if err != nil || json.Unmarshal(data, &b) != nil || len(b) != 2 || b["id"] != id || b["addr"] != addr || req.Method != "POST" || req.URL.Path != "/join" {
				fail("request", "host %d gets %s %s %q, expected to join was %q at %q", i, req.Method, req.URL, data, id, addr)
			}
			mu.Unlock()
			if i == hang {
				select {
				case <-req.Context().Done():
				case <-done:
				}
				return
			}
			if try >= accept[i] {
				w.Write([]byte(`{"id":"x"}`))
				return
			}
			w.WriteHeader([]int{500, 503, 400, 404, 302, 429}[(i+try)%6])
		}))
		if absent[i] {
			s.Close()
			// nobody listens there, while others may take the port that was closed
			hosts = append(hosts, fmt.Sprintf("127.0.0.1:%d", 1+i))
			continue
		} else {
			servers = append(servers, s)
			if accept[i] <= 3 {
				willWork = true
			}
		}
		hosts = append(hosts, s.Listener.Addr().String())
	}
	if hang >= 0 {
		// one that is asked after the one that hangs accepts
		if k > 1 && hang < k-1 {
			accept[k-1] = 1
			willWork = true
		}
		rep.Count("join-hanging", 1)
	}
	j := cluster.NewJoiner(id, addr, append([]string{}, hosts...))
	res := make(chan error, 1)
	began := time.Now()
	go func() { res <- j.Join() }()
	var err error
	limit := 20 * time.Second
	if hang >= 0 {
		limit = 100 * time.Second
	}
	select {
	case err = <-res:
	case <-time.After(limit):
		mu.Lock()
		fail("hang", "the joiner does not return within %s", limit)
		mu.Unlock()
	}
	close(done)
	took := time.Since(began)
	for _, s := range servers {
		s.Close()
	}
	mu.Lock()
	defer mu.Unlock()
	if bad {
		return
	}
	rep.Count("join-requests", int64(len(order)))
	// what must have happened
	var want []int
	ok := false
	rounds := 0
	tries := make([]int, k)
	for !ok && rounds < 3 {
		rounds++
		for i := 0; i < k && !ok; i++ {
			if absent[i] {
				continue
			}
			tries[i]++
			want = append(want, i)
			if i != hang && tries[i] >= accept[i] {
				ok = true
			}
		}
	}
	trace = append(trace, fmt.Sprintf("result %v after %v; hosts accept at attempt %v, absent %v", err, took, accept, absent))
	if ok != willWork {
		panic("harness: the expectation is wrong")
	}
	if (err == nil) != ok {
		fail("result", "the joiner returns %v, a host accepted: %v", err, ok)
	}
	if fmt.Sprint(order) != fmt.Sprint(want) {
		fail("attempts", "the joiner asked the hosts %v, expected was %v", order, want)
	}
	if ok {
		rep.Count("join-accepted", 1)
	} else {
		rep.Count("join-exhausted", 1)
	}
	rep.Done(k > 1, fmt.Sprint("join", order, ok, took.Round(time.Second)), func() any { return trace })
}

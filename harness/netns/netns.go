// Package netns gives processes hosts of their own: network namespaces inside
// a namespace of the user, which need no privileges and end with the process.
package netns

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

const variable = "DOQVERIF_NETNS"

// Enter runs the process again in a namespace of its own and ends with it. It
// returns true in there, or false if there are no namespaces to be had.
func Enter() bool {
	switch os.Getenv(variable) {
	case "in":
		return setup() == nil
	case "out":
		return false
	}
	// try with something that has no effect
	try := command("true")
	if try.Run() != nil {
		return false
	}
	probe := command("sh", "-c", "ip link set lo up && ip link add br9 type bridge && ip link add v9 type veth peer name w9")
	if probe.Run() != nil {
		return false
	}
	cmd := command("/proc/self/exe", os.Args[1:]...)
	cmd.Args[0] = os.Args[0]
	cmd.Env = append(os.Environ(), variable+"=in")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err := cmd.Run()
	if err == nil {
		os.Exit(0)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws := ee.Sys().(syscall.WaitStatus); ws.Signaled() {
			fmt.Fprintf(os.Stderr, "panic: harness: killed by signal %d\n", ws.Signal())
			os.Exit(2)
		}
		os.Exit(ee.ExitCode())
	}
	fmt.Fprintln(os.Stderr, "panic: harness:", err)
	os.Exit(2)
	return false
}

func command(name string, args ...string) *exec.Cmd {
	cmd := exec.Command(name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	return cmd
}

func run(args ...string) error {
	var out bytes.Buffer
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%s: %v %s", strings.Join(args, " "), err, out.String())
	}
	return nil
}

func setup() error {
	for _, c := range []string{
		"ip link set lo up", "ip link add br0 type bridge", "ip link set br0 up", "ip addr add 10.9.0.254/24 dev br0",
	} {
		if err := run(strings.Fields(c)...); err != nil {
			return err
		}
	}
	return nil
}

// Host is a host with an address of its own.
type Host struct {
	Addr string
	link string
	hold *exec.Cmd
}

var made int

// NewHost makes one.
func NewHost() (*Host, error) {
	made++
	h := &Host{Addr: fmt.Sprintf("10.9.0.%d", 1+made%250), link: fmt.Sprintf("v%d", made)}
	h.hold = exec.Command("sleep", "100000")
	h.hold.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWNET, Pdeathsig: syscall.SIGKILL}
	if err := h.hold.Start(); err != nil {
		return nil, err
	}
	pid := fmt.Sprint(h.hold.Process.Pid)
	if err := run("ip", "link", "add", h.link, "type", "veth", "peer", "name", "eth0", "netns", pid); err != nil {
		h.Close()
		return nil, err
	}
	in := append(h.Prefix(), "sh", "-c", "ip link set lo up && ip addr add "+h.Addr+"/24 dev eth0 && ip link set eth0 up")
	for _, c := range [][]string{{"ip", "link", "set", h.link, "master", "br0", "up"}, in} {
		if err := run(c...); err != nil {
			h.Close()
			return nil, err
		}
	}
	return h, nil
}

// Prefix is what starts a process on the host.
func (h *Host) Prefix() []string {
	return []string{"nsenter", "-t", fmt.Sprint(h.hold.Process.Pid), "-n", "--"}
}

// Cut cuts the host off, or connects it again.
func (h *Host) Cut(off bool) error {
	return run("ip", "link", "set", h.link, map[bool]string{true: "down", false: "up"}[off])
}

// Close ends the host.
func (h *Host) Close() {
	h.hold.Process.Kill()
	h.hold.Wait()
	run("ip", "link", "del", h.link)
	time.Sleep(10 * time.Millisecond)
}

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
)

// What runs code under test runs in a user namespace of its own: it is root there, for
// the files of two users that exist nowhere else, and a stranger to everything else. So
// whatever that code does, it can only reach the scratch directory.
const (
	insideRoot   = 64001 // owns what the workers make
	insideNobody = 64002 // the user texted sometimes runs as
)

func insideAttr() *syscall.SysProcAttr {
	ids := []syscall.SysProcIDMap{{ContainerID: 0, HostID: insideRoot, Size: 1}, {ContainerID: 65534, HostID: insideNobody, Size: 1}}
	return &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL, Cloneflags: syscall.CLONE_NEWUSER,
		UidMappings: ids, GidMappings: ids, GidMappingsEnableSetgroups: true, Credential: &syscall.Credential{Uid: 0, Gid: 0}}
}

// contained is how processes are started that run code under test: in that namespace
// where this is possible.
func contained(verif string) *syscall.SysProcAttr {
	if possible(verif) {
		return insideAttr()
	}
	return &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
}

var possibleOnce sync.Once
var isPossible bool

func possible(verif string) bool {
	possibleOnce.Do(func() {
		if os.Getuid() != 0 || os.Getenv("VERIF_INSIDE") != "" {
			return
		}
		self, err := os.Executable()
		if err != nil || os.Lchown(scratchRoot, insideRoot, insideRoot) != nil {
			return
		}
		cmd := exec.Command(self, "probe", "-verif", verif, "-bin", textedBin, "-repo", repoDir, "-scratch", scratchRoot)
		cmd.SysProcAttr = insideAttr()
		out, err := cmd.CombinedOutput()
		isPossible = err == nil
		if !isPossible {
			fmt.Fprintf(os.Stderr, "no containment: %v %s\n", err, out)
			os.Lchown(scratchRoot, 0, 0)
		}
	})
	return isPossible
}

// probe tells whether everything a worker needs works here.
func probe(verif string) int {
	fail := func(err error) int {
		fmt.Println(err)
		return 1
	}
	for _, f := range []string{filepath.Join(verif, "known_findings.txt"), filepath.Join(repoDir, "go.mod")} {
		if _, err := os.ReadFile(f); err != nil {
			return fail(err)
		}
	}
	d := filepath.Join(scratchRoot, "probe")
	defer os.RemoveAll(d)
	if err := os.MkdirAll(d, 0755); err != nil {
		return fail(err)
	}
	f := filepath.Join(d, "f")
	if err := os.WriteFile(f, []byte("x"), 0600); err != nil {
		return fail(err)
	}
	if err := os.Chown(f, 65534, 65534); err != nil {
		return fail(err)
	}
	if _, err := os.ReadFile(f); err != nil {
		return fail(err)
	}
	if nobody() == nil {
		return fail(fmt.Errorf("no other user"))
	}
	if out, err := exec.Command(textedBin, "help").CombinedOutput(); err != nil {
		return fail(fmt.Errorf("%v: %s", err, out))
	}
	return 0
}

// replayInside runs a replay in the namespace, if that is possible.
func replayInside(verif, file string, args []string) (int, bool) {
	if !possible(verif) {
		return 0, false
	}
	self, err := os.Executable()
	b, err2 := os.ReadFile(file)
	copied := filepath.Join(scratchRoot, filepath.Base(file))
	if err != nil || err2 != nil || os.WriteFile(copied, b, 0644) != nil {
		return 0, false
	}
	cmd := exec.Command(self, append(args, "-scratch", scratchRoot, copied)...)
	cmd.Env = append(os.Environ(), "VERIF_INSIDE=1", "VERIF_REPLAY="+file, "TMPDIR="+scratchRoot)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.SysProcAttr = insideAttr()
	err = cmd.Run()
	if cmd.ProcessState == nil {
		fmt.Fprintln(os.Stderr, err)
		return 3, true
	}
	return cmd.ProcessState.ExitCode(), true
}

// makeInside makes a directory for a worker.
func makeInside(dir string) {
	os.MkdirAll(dir, 0755)
	if possible(verifDir) {
		os.Lchown(dir, insideRoot, insideRoot)
	}
}

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/verifos"
)

func init() {
	modes["lock"] = modeLock
	modes["lockd"] = modeLockDaemon
}

// modeLockDaemon is ferryd itself, held at the points that concern the lock
// file and the closing of the stores until it is told to go on
func modeLockDaemon(t *testing.T) {
	base, sock := os.Getenv("VERIF_BASE"), os.Getenv("VERIF_SOCKET")
	tell := os.NewFile(3, "tell")
	if os.Getenv("VERIF_ACTIVATED") != "" {
		// What systemd does: the socket comes first
		tell = os.NewFile(4, "tell")
		os.Setenv("LISTEN_FDS", "1")
		os.Setenv("LISTEN_PID", strconv.Itoa(os.Getpid()))
	}
	lock := filepath.Join(base, LockFilePath)
	var mu sync.Mutex
	waits := map[string]chan bool{}
	n, open, told := 0, 0, false
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			mu.Lock()
			if c := waits[sc.Text()]; c != nil {
				close(c)
				delete(waits, sc.Text())
			}
			mu.Unlock()
		}
		os.Exit(3)
	}()
	say := func(f string, a ...interface{}) {
		io.WriteString(tell, os.Getenv("VERIF_NAME")+" "+fmt.Sprintf(f, a...)+"\n")
	}
	hold := func(kind, what string) {
		mu.Lock()
		n++
		id, c := strconv.Itoa(n), make(chan bool)
		waits[id] = c
		mu.Unlock()
		say("hold %s %s %s", id, kind, what)
		<-c
	}
	verifos.Hook = func(p verifos.Point) error {
		what := p.Phase + " " + p.Op
		if len(p.Args) > 0 {
			what += " " + filepath.Base(p.Args[0])
		}
		if p.Op == "flock" || p.Op == "open" && p.Args[0] == lock || len(p.Args) > 0 && p.Args[0] == lock {
			hold("lock", what)
			return nil
		}
		inside := strings.HasPrefix(p.Op, "db.")
		for _, a := range p.Args {
			inside = inside || strings.HasPrefix(a, base)
		}
		if !inside {
			// The socket
			return nil
		}
		switch {
		case p.Op == "db.open":
			mu.Lock()
			open++
			mu.Unlock()
		case p.Op == "db.close" && p.Phase == verifos.Before:
			say("use %s", what)
			hold("close", what)
			return nil
		case p.Op == "db.close":
			mu.Lock()
			open--
			last := open == 0
			mu.Unlock()
			say("use %s", what)
			if last {
				say("closed")
			}
			return nil
		}
		if (mutations[p.Op] || strings.HasPrefix(p.Op, "db.")) && p.Op != "open" {
			mu.Lock()
			first := !told
			told = true
			mu.Unlock()
			// Pollers look into the database all the time
			if first || p.Phase == verifos.Before && mutations[p.Op] && p.Op != "db.commit" || p.Op == "db.open" {
				say("use %s", what)
			}
			if p.Op == "mkdirall" && p.Phase == verifos.Before && strings.HasPrefix(filepath.Base(p.Args[0]), "job") {
				hold("job", what)
				say("use after %s", what)
			}
		}
		return nil
	}
	os.Args = []string{"ferryd", "-d", base, "-s", sock, "-j", "2"}
	main()
	os.Exit(0)
}

type lockd struct {
	name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	holds   [][2]string // id, kind
	alive   bool
	killed  bool
	stopped bool
	used    bool
}

type lockLine struct {
	Run     int    `json:"run"`
	Ev      string `json:"ev"`
	P       string `json:"p"`
	What    string `json:"what"`
	Closes  bool   `json:"closes"`
	Killed  bool   `json:"killed"`
	Stopped bool   `json:"stopped"`
}

func modeLock(t *testing.T) {
	o := newOut(os.Getenv("VERIF_OUT"))
	defer o.close()
	self, err := os.Executable()
	must(err)
	eachLine(os.Getenv("VERIF_IN"), func(b []byte) {
		s := struct {
			Run  int
			Seed int64
			Left string
			// Activated: the socket is made beforehand, and outlives the daemons
			Activated bool
			Ops       []struct{ A, P string }
		}{}
		must(json.Unmarshal(b, &s))
		rng := rand.New(rand.NewSource(s.Seed))
		dir := scratch()
		defer os.RemoveAll(dir)
		base := filepath.Join(dir, "base")
		must(os.MkdirAll(base, 0755))
		sock := filepath.Join(dir, "s")
		lock := filepath.Join(base, LockFilePath)
		switch s.Left {
		case "empty":
			must(os.WriteFile(lock, nil, 0644))
		case "garbage":
			must(os.WriteFile(lock, []byte("what is this\x00"), 0644))
		case "dead":
			must(os.WriteFile(lock, []byte("4194000"), 0644))
		case "parent":
			must(os.WriteFile(lock, []byte(strconv.Itoa(os.Getpid())), 0644))
		case "first":
			must(os.WriteFile(lock, []byte("1"), 0644))
		case "long":
			must(os.WriteFile(lock, []byte("99999999999999999999999999\n77"), 0644))
		case "socket":
			l, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			must(err)
			must(syscall.Bind(l, &syscall.SockaddrUnix{Name: sock}))
			syscall.Close(l)
		}
		var handed *os.File
		if s.Activated {
			os.Remove(sock)
			l, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			must(err)
			must(syscall.Bind(l, &syscall.SockaddrUnix{Name: sock}))
			must(syscall.Listen(l, 100))
			handed = os.NewFile(uintptr(l), "socket")
			defer handed.Close()
		}
		r, w, err := os.Pipe()
		must(err)
		defer r.Close()
		defer w.Close()
		msgs := make(chan string, 10000)
		go func() {
			sc := bufio.NewScanner(r)
			for sc.Scan() {
				msgs <- sc.Text()
			}
		}()
		put := func(l lockLine) { l.Run = s.Run; o.put(l) }
		put(lockLine{Ev: "init", What: s.Left})
		ds := map[string]*lockd{}
		handle := func(m string) {
			f := strings.SplitN(m, " ", 3)
			d := ds[f[0]]
			switch f[1] {
			case "hold":
				g := strings.Fields(f[2])
				d.holds = append(d.holds, [2]string{g[0], g[1]})
				if g[1] == "job" {
					put(lockLine{Ev: "job", P: d.name})
				}
			case "use":
				d.used = true
				put(lockLine{Ev: "use", P: d.name, What: f[2], Closes: strings.HasPrefix(f[2], verifos.Before+" db.close")})
			case "closed":
				put(lockLine{Ev: "closed", P: d.name})
			case "gone":
				d.alive, d.holds = false, nil
				put(lockLine{Ev: "gone", P: d.name, Killed: d.killed, Stopped: d.stopped})
			}
		}
		drain := func() {
			for {
				select {
				case m := <-msgs:
					handle(m)
					continue
				default:
				}
				return
			}
		}
		// settle waits until the daemon is held, or gone, or has nothing to say
		settle := func(d *lockd, n int) {
			quiet := 100 * time.Millisecond
			for len(d.holds) <= n && d.alive {
				select {
				case m := <-msgs:
					handle(m)
				case <-time.After(quiet):
					if d.used || n > 0 {
						return
					}
					// Not even begun: the machine is busy
					quiet *= 2
					if quiet > 20*time.Second {
						return
					}
				}
			}
			drain()
		}
		// When a daemon is killed while it starts another program, the child has
		// the lock file open until it gets to that
		released := func() {
			for _, d := range ds {
				if d.alive {
					return
				}
			}
			for k := 0; k < 200; k++ {
				f, err := os.OpenFile(lock, os.O_RDWR, 0)
				if err != nil {
					return
				}
				err = syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
				f.Close()
				if err == nil {
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		start := func(name string) *lockd {
			if d := ds[name]; d != nil && d.alive {
				return d
			}
			released()
			d := &lockd{name: name, alive: true}
			ds[name] = d
			cmd := exec.Command(self, "-test.run", "^TestVerif$")
			cmd.Env = append(os.Environ(), "VERIF_MODE=lockd", "VERIF_NAME="+name, "VERIF_BASE="+base, "VERIF_SOCKET="+sock, "VERIF_SCRATCH="+dir)
			cmd.ExtraFiles = []*os.File{w}
			if s.Activated {
				cmd.ExtraFiles = []*os.File{handed, w}
				cmd.Env = append(cmd.Env, "VERIF_ACTIVATED=1")
			}
			d.cmd = cmd
			in, err := cmd.StdinPipe()
			must(err)
			d.in = in
			if os.Getenv("VERIF_LOG") != "" {
				cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
			}
			put(lockLine{Ev: "start", P: name})
			must(cmd.Start())
			go func() {
				cmd.Wait()
				// After everything it had to say
				io.WriteString(w, name+" gone\n")
			}()
			settle(d, 0)
			return d
		}
		release := func(d *lockd, job bool) bool {
			for k, h := range d.holds {
				if (h[1] == "job") != job {
					continue
				}
				d.holds = append(d.holds[:k:k], d.holds[k+1:]...)
				if job {
					put(lockLine{Ev: "freed", P: d.name})
				}
				io.WriteString(d.in, h[0]+"\n")
				settle(d, len(d.holds))
				return true
			}
			return false
		}
		step := func(d *lockd) bool { return release(d, false) || release(d, true) }
		patience := 5 * time.Second
		if s.Activated {
			// Somebody may come to it later
			patience = time.Second
		}
		client := func(f func(c *libferry.Client) error) error {
			ch := make(chan error, 1)
			c := libferry.NewClient(sock)
			go func() { ch <- f(c); c.Close() }()
			select {
			case err := <-ch:
				return err
			case <-time.After(patience):
				return fmt.Errorf("no answer")
			}
		}
		gone := func(d *lockd) {
			for t := 0; d.alive; t++ {
				select {
				case m := <-msgs:
					handle(m)
				case <-time.After(300 * time.Millisecond):
					if !step(d) && t > 100 {
						put(lockLine{Ev: "stuck", P: d.name})
						d.cmd.Process.Kill()
						d.killed = true
					}
				}
				for d.alive && step(d) {
				}
			}
		}
		jobs := 0
		for _, x := range s.Ops {
			d := ds[x.P]
			live := d != nil && d.alive
			switch x.A {
			case "start":
				start(x.P)
			case "step":
				if live {
					step(d)
				}
			case "stop":
				if live && !d.stopped {
					d.stopped = true
					n := len(d.holds)
					d.cmd.Process.Signal(syscall.SIGTERM)
					settle(d, n)
				}
			case "job":
				if live && d.used && !d.stopped {
					jobs++
					n := len(d.holds)
					client(func(c *libferry.Client) error { return c.CreateRepo("job" + strconv.Itoa(jobs)) })
					settle(d, n)
				}
			case "kill":
				if live {
					d.killed = true
					d.cmd.Process.Kill()
					settle(d, 1000)
					for d.alive {
						handle(<-msgs)
					}
				}
			}
			drain()
		}
		// Everybody goes, one way or another
		for name := range map[string]bool{"p": true, "q": true, "r": true} {
			d := ds[name]
			if d == nil || !d.alive {
				continue
			}
			if rng.Intn(2) == 0 {
				d.killed = true
				d.cmd.Process.Kill()
			} else {
				d.stopped = true
				d.cmd.Process.Signal(syscall.SIGTERM)
			}
			gone(d)
		}
		drain()
		// and one comes alone
		d := start("s")
		answered := false
		for k := 0; k < 2000 && d.alive && !answered; k++ {
			for step(d) {
			}
			answered = client(func(c *libferry.Client) error { _, err := c.GetStatus(); return err }) == nil
			drain()
			if !answered {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if d.alive && !answered {
			put(lockLine{Ev: "mute", P: "s"})
		}
		if d.alive {
			d.stopped = true
			d.cmd.Process.Signal(syscall.SIGTERM)
			gone(d)
		}
		drain()
	})
}

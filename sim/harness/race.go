//go:build go1.24

package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// The race detector of the toolchain watches race builds. It sees only the
// ordering made by the node's own synchronisation (the simulator hides its own)
// and writes its reports to a file, which is read after every run.

type raceLog struct {
	path string
	off  int64
}

var races raceLog

func (l *raceLog) size() int64 {
	if !zzrt.RaceBuild {
		return 0
	}
	if l.path == "" {
		p := os.Getenv("VERIF_RACELOG")
		if p == "" {
			return 0
		}
		l.path = fmt.Sprintf("%s.%d", p, os.Getpid())
	}
	fi, err := os.Stat(l.path)
	if err != nil {
		return 0
	}
	return fi.Size()
}

// take returns what was reported up to end and forgets everything after it.
func (l *raceLog) take(end int64) string {
	if l.size() == l.off {
		return ""
	}
	var b []byte
	if f, err := os.Open(l.path); err == nil {
		if end > l.off {
			b = make([]byte, end-l.off)
			n, _ := f.ReadAt(b, l.off)
			b = b[:n]
		}
		f.Close()
	}
	l.off = l.size()
	return string(b)
}

var (
	reFrame = regexp.MustCompile(`(?m)^  (\S.*)\(\)\n      (\S+):(\d+)`)
	reAcc   = regexp.MustCompile(`(?m)^(?:Previous )?(\w[\w ]*?) at 0x`)
)

const module = "github.com/dblokhin/gringo"

// nodeFrame is the first frame of an access that belongs to the node: "" if the
// access is the harness' own or its stack is unknown.
func nodeFrame(section string) string {
	announced := false
	if strings.Contains(section, ".SimReset()") || strings.Contains(section, ".zzIni") {
		return "" // package variables being reset for the next life of the process
	}
	for _, m := range reFrame.FindAllStringSubmatch(section, -1) {
		fn := m[1]
		rest, own := strings.CutPrefix(fn, module+"/")
		switch {
		case strings.HasPrefix(fn, "main."):
			return ""
		case !own:
			continue // the standard library or a dependency, on behalf of the caller
		case !strings.HasPrefix(rest, "zzsim/"):
			file := m[2]
			if i := strings.LastIndex(file, "/gringo/"); i >= 0 {
				file = file[i+8:]
			}
			if i := strings.LastIndexByte(file, '/'); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s (%s:%s)", rest, file, m[3])
		case strings.HasPrefix(rest, "zzsim/fakes."):
			// the state of the stand-in chain, touched on behalf of the node
			for _, s := range []string{"Height", "TotalDifficulty", "Set"} {
				if strings.HasSuffix(rest, ")."+s) {
					return rest
				}
			}
			return ""
		case strings.HasPrefix(rest, "zzsim/zzrt.RaceReadRange"), strings.HasPrefix(rest, "zzsim/zzrt.RaceWriteRange"):
			announced = true
		case strings.HasPrefix(rest, "zzsim/zatomic."), strings.HasPrefix(rest, "zzsim/zsync."),
			strings.HasPrefix(rest, "zzsim/zzrt.MapIter"), strings.HasPrefix(rest, "zzsim/zzrt.(*Iter["):
			// accesses made on behalf of the caller
		case announced && strings.HasPrefix(rest, "zzsim/znet."):
		default:
			return ""
		}
	}
	return ""
}

// raceViolations lists the data races of the node in a piece of the log.
func raceViolations(txt string, now int64) (vs []Violation) {
	if txt == "" {
		return nil
	}
	seen := map[string]bool{}
	for _, blk := range strings.Split(txt, "==================") {
		if !strings.Contains(blk, "DATA RACE") {
			continue
		}
		secs := strings.Split(strings.TrimSpace(blk), "\n\n")
		if len(secs) < 2 {
			continue
		}
		a, b := nodeFrame(secs[0]), nodeFrame(secs[1])
		if a == "" || b == "" {
			continue
		}
		how := func(s string) string {
			if m := reAcc.FindStringSubmatch(s[strings.Index(s, "\n")+1:]); m != nil && strings.HasPrefix(s, "WARNING") {
				return strings.ToLower(m[1])
			}
			if m := reAcc.FindStringSubmatch(s); m != nil {
				return strings.ToLower(m[1])
			}
			return "access"
		}
		msg := fmt.Sprintf("%s in %s is not ordered with the %s in %s", how(secs[0]), a, how(secs[1]), b)
		if !seen[msg] {
			seen[msg] = true
			vs = append(vs, Violation{"C13", "data-race", msg, now})
		}
	}
	return vs
}

// apart calls node code for the harness. In a race build it does so on a
// goroutine of its own: where the harness runs, synchronisation is ignored, also
// that of the pools inside the libraries, and what they hand on to the node
// would seem unordered.
func apart(fn func()) {
	if !zzrt.RaceBuild {
		fn()
		return
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		fn()
	}()
	<-done
}

// copied is a copy the race detector knows nothing about.
func copied(b []byte) []byte {
	c := make([]byte, len(b))
	for i := range b {
		c[i] = b[i]
	}
	return c
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is one registered property check.
type Check struct {
	Run    func(r *Run)
	Rule   string
	Assume []string
}

var checks = map[string]Check{}

func register(id, rule string, run func(r *Run), assume ...string) {
	checks[id] = Check{Run: run, Rule: rule, Assume: assume}
}

var extraModes = map[string]func() int{}

func main() {
	if len(os.Args) < 3 {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: mc run ID | mc replay FILE; checks:", strings.Join(ids, " "))
		os.Exit(2)
	}
	knownFindings = loadKnown()
	if os.Args[1] == "baseline" {
		os.Exit(baselineMain())
	}
	if extraModes[os.Args[1]] != nil {
		os.Exit(extraModes[os.Args[1]]())
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2]))
	case "child":
		os.Exit(child(os.Args[2], nil))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatalf("%v", err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatalf("%v", err)
		}
		os.Exit(child(v.Property, &v))
	}
}

func child(id string, only *Violation) int {
	ck, ok := checks[id]
	if !ok {
		fatalf("unknown check %s", id)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{ID: id, Seed: seed, start: time.Now(), known: map[string]int64{}, only: only, extra: map[string]interface{}{}}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	limit := 400 * time.Second
	if r.Thorough {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(limit)
	go r.watchdog()
	ck.Run(r)
	cleanupTmp()
	if only != nil {
		if r.violation != nil {
			return 1
		}
		return 0
	}
	return r.finish()
}

// supervise runs the check in a child so that fatal runtime errors of the code
// under test (stack overflow, concurrent map access) are reported as violations.
func supervise(id string) int {
	cmd := exec.Command(os.Args[0], "child", id)
	var tail bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, &tail)
	err := cmd.Run()
	if err == nil {
		return 0
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 {
		return 1
	}
	log := tail.String()
	if strings.Contains(log, "fatal error: ") && !strings.Contains(log, "harness error") || strings.Contains(log, "goroutine stack exceeds") {
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, id+".json")
		if len(log) > 20000 {
			log = log[:20000]
		}
		b, _ := json.MarshalIndent(Violation{Property: id, Message: "the code under test crashed the process", Trace: strings.Split(log, "\n")}, "", " ")
		os.WriteFile(path, b, 0o644)
		ev, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": "quick", "seed": 0, "level": "other",
			"coverage": map[string]interface{}{"explanation": "the code under test crashed the process before the run completed"}, "wall_s": 0, "violations": 1}, "", " ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), ev, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 3
}

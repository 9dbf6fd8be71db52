package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/engine/interp"
)

type nativeBin struct {
	bin  string
	work string
	err  string
	n    int
	cfg  *Config
}

type nativeJob struct {
	Entry  string   `json:"entry"`
	Vector []uint64 `json:"vector"`
	Tier   int      `json:"tier"`
	Repeat int      `json:"repeat"`
}

type nativeResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func buildNative(cfg *Config, ov *overlay, work string) *nativeBin {
	nb := &nativeBin{bin: filepath.Join(work, "native.test"), work: work, cfg: cfg}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov.json, "-o", nb.bin, "./"+cfg.Pkg)
	cmd.Dir = repo
	cmd.Env = goEnv()
	for _, e := range cmd.Env {
		if strings.HasPrefix(e, "PATH=") {
			for _, d := range strings.Split(e[5:], ":") {
				if fileExists(filepath.Join(d, "go")) {
					cmd.Path = filepath.Join(d, "go")
					cmd.Err = nil
					break
				}
			}
		}
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		nb.err = fmt.Sprintf("%v: %s", err, out)
	} else if !fileExists(nb.bin) {
		nb.err = "no native binary: " + string(out)
	}
	return nb
}

// run replays jobs in one process.
func (nb *nativeBin) run(jobs []nativeJob, timeout time.Duration) ([]nativeResult, string) {
	nb.n++
	jf := filepath.Join(nb.work, fmt.Sprintf("jobs%d", nb.n))
	of := filepath.Join(nb.work, fmt.Sprintf("out%d", nb.n))
	var b bytes.Buffer
	for _, j := range jobs {
		x, _ := json.Marshal(j)
		b.Write(x)
		b.WriteByte('\n')
	}
	os.WriteFile(jf, b.Bytes(), 0o644)
	os.WriteFile(of, nil, 0o644)
	dir := filepath.Join(nb.work, "cwd")
	os.MkdirAll(dir, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run", "^TestVerifNative$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(goEnv(), "VERIF_JOBS="+jf, "VERIF_OUT="+of, "GOMEMLIMIT=2GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var log bytes.Buffer
	cmd.Stdout = &log
	cmd.Stderr = &log
	err := cmd.Run()
	end := ""
	if ctx.Err() != nil {
		end = "hang"
	} else if err != nil {
		end = "crash"
		if i := bytes.Index(log.Bytes(), []byte("fatal error")); i >= 0 {
			l := log.Bytes()[i:]
			if k := bytes.IndexByte(l, '\n'); k > 0 {
				l = l[:k]
			}
			end = "crash: " + string(l)
		} else if i := bytes.Index(log.Bytes(), []byte("panic: ")); i >= 0 {
			l := log.Bytes()[i:]
			if k := bytes.IndexByte(l, '\n'); k > 0 {
				l = l[:k]
			}
			end = "crash: " + string(l)
		}
	}
	var res []nativeResult
	data, _ := os.ReadFile(of)
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var r nativeResult
		if json.Unmarshal(l, &r) == nil {
			res = append(res, r)
		}
	}
	return res, end
}

func (nb *nativeBin) one(j nativeJob) nativeResult {
	res, end := nb.run([]nativeJob{j}, 12*time.Second)
	if len(res) == 1 {
		return res[0]
	}
	switch {
	case end == "hang":
		return nativeResult{Status: "hang", Msg: "no answer within 12 s"}
	case strings.HasPrefix(end, "crash"):
		return nativeResult{Status: "panic", Msg: end}
	}
	return nativeResult{Status: "error", Msg: "no result"}
}

// confirm replays a counterexample against the compiled code.
func (nb *nativeBin) confirm(f *interp.Failure, tier int, r *entryReport) bool {
	j := nativeJob{Entry: f.Entry, Vector: f.Vector, Tier: tier}
	if f.MapOrd || r.Entry.MapOrder {
		j.Repeat = 2000
	}
	n := nb.one(j)
	bad := n.Status == "assert" || n.Status == "panic" || n.Status == "hang"
	if !bad {
		r.Unconf = append(r.Unconf, fmt.Sprintf("%s: %s vector %v: native run says %s %s %v", f.Kind, f.Msg, f.Vector, n.Status, n.Msg, n.Obs))
		return false
	}
	dir := filepath.Join(verif, "work", "replay")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", nb.cfg.Property, f.Entry, len(r.Confirm)))
	b, _ := json.MarshalIndent(map[string]any{
		"property": nb.cfg.Property, "entry": f.Entry, "vector": f.Vector, "tier": tier, "repeat": j.Repeat,
		"kind": f.Kind, "message": f.Msg, "native_status": n.Status, "native_message": n.Msg, "observed": n.Obs,
	}, "", " ")
	os.WriteFile(file, b, 0o644)
	r.Confirm = append(r.Confirm, confirmed{f, n, file})
	return true
}

func replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf struct {
		Property, Entry string
		Vector          []uint64
		Tier, Repeat    int
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cfg, err := loadConfig(rf.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	work, _ := os.MkdirTemp("", "vrun-replay-")
	defer os.RemoveAll(work)
	ov, err := buildOverlay(cfg, work)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nb := buildNative(cfg, ov, work)
	if nb.err != "" {
		fmt.Fprintln(os.Stderr, nb.err)
		return 2
	}
	n := nb.one(nativeJob{rf.Entry, rf.Vector, rf.Tier, rf.Repeat})
	out, _ := json.MarshalIndent(n, "", " ")
	fmt.Println(string(out))
	if n.Status == "assert" || n.Status == "panic" || n.Status == "hang" {
		return 1
	}
	return 0
}

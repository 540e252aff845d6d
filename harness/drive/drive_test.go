// Package drive hosts the simulation: it reads scripts, runs them and writes the traces.
package drive

import (
	"bufio"
	"encoding/json"
	"os"
	"strconv"
	"testing"

	"verif/harness/sim"
	"verif/harness/vsync"
)

// TestDrive runs the scripts in $IN (those whose number is $SHARD modulo $SHARDS) and appends one JSON line per run to $OUT.
func TestDrive(t *testing.T) {
	in := os.Getenv("IN")
	if in == "" {
		t.Skip()
	}
	sim.T = t
	shard, _ := strconv.Atoi(os.Getenv("SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("SHARDS"))
	if shards == 0 {
		shards = 1
	}
	if v, err := strconv.Atoi(os.Getenv("TICKS")); err == nil && v > 0 {
		vsync.TickLimit = v
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	defer out.Close()
	defer w.Flush()
	rd := bufio.NewReaderSize(f, 1<<20)
	skip, _ := strconv.Atoi(os.Getenv("SKIP"))
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if n%shards != shard || n < skip {
			continue
		}
		var sc sim.Script
		if err := json.Unmarshal(line, &sc); err != nil {
			t.Fatal(n, err)
		}
		// what runs now is known even if the process dies
		os.WriteFile(os.Getenv("OUT")+".cur", []byte(strconv.Itoa(n)), 0o644)
		tr, fatal := sim.Run(&sc)
		if fatal != "" {
			tr = append(tr, map[string]any{"e": "crash", "msg": fatal})
		}
		b, _ := json.Marshal(map[string]any{"n": n, "id": sc.ID, "mode": sc.Mode, "ev": tr})
		w.Write(b)
		w.WriteByte('\n')
	}
	os.WriteFile(os.Getenv("OUT")+".cur", []byte("done"), 0o644)
}

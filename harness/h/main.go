// Command h drives the real code and records what it does.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: h COMMAND ...")
		os.Exit(2)
	}
	var err error
	switch os.Args[1] {
	case "seq":
		fs := flag.NewFlagSet("seq", flag.ExitOnError)
		var o SeqOptions
		fs.StringVar(&o.Engine, "engine", "mem", "")
		fs.StringVar(&o.Level, "level", "engine", "")
		fs.StringVar(&o.Profile, "profile", "mix", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Traces, "traces", 10, "")
		fs.IntVar(&o.Steps, "steps", 40, "")
		fs.IntVar(&o.Views, "views", 0, "")
		fs.BoolVar(&o.Metrics, "met", false, "")
		fs.BoolVar(&o.Restarts, "restarts", false, "")
		fs.StringVar(&o.Out, "out", "trace.ndjson", "")
		fs.StringVar(&o.Scratch, "scratch", ".", "")
		fs.StringVar(&o.Dict, "dict", "", "")
		fs.IntVar(&o.Only, "only", -1, "")
		fs.Parse(os.Args[2:])
		mongoScratch = o.Scratch
		err = runSeq(&o)
	case "grid":
		fs := flag.NewFlagSet("grid", flag.ExitOnError)
		var o GridOptions
		fs.StringVar(&o.Engine, "engine", "mem", "")
		fs.StringVar(&o.Grid, "grid", "grid.json", "")
		fs.StringVar(&o.Out, "out", "trace.ndjson", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Shard, "shard", 0, "")
		fs.IntVar(&o.Shards, "shards", 1, "")
		fs.IntVar(&o.Pairs, "pairs", 0, "")
		fs.Float64Var(&o.Singles, "singles", 1, "")
		fs.StringVar(&o.Prefix, "ops", "", "")
		fs.IntVar(&o.Only, "only", -1, "")
		fs.Parse(os.Args[2:])
		mongoScratch = filepath.Dir(o.Out)
		err = runGrid(&o)
	case "api":
		fs := flag.NewFlagSet("api", flag.ExitOnError)
		var o APIOptions
		fs.StringVar(&o.Engine, "engine", "mem", "")
		fs.StringVar(&o.Level, "level", "http", "")
		fs.StringVar(&o.Grid, "grid", "api.json", "")
		fs.StringVar(&o.Out, "out", "trace.ndjson", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Shard, "shard", 0, "")
		fs.IntVar(&o.Shards, "shards", 1, "")
		fs.IntVar(&o.Stores, "stores", 1, "")
		fs.Float64Var(&o.Share, "share", 1, "")
		fs.StringVar(&o.Prefix, "ops", "", "")
		fs.BoolVar(&o.Metrics, "met", false, "")
		fs.IntVar(&o.Only, "only", -1, "")
		fs.Parse(os.Args[2:])
		mongoScratch = filepath.Dir(o.Out)
		err = runAPI(&o)
	case "lin":
		fs := flag.NewFlagSet("lin", flag.ExitOnError)
		var o LinOptions
		fs.StringVar(&o.Engine, "engine", "mem", "")
		fs.StringVar(&o.Mode, "mode", "pairs", "")
		fs.StringVar(&o.Level, "level", "engine", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Shard, "shard", 0, "")
		fs.IntVar(&o.Shards, "shards", 1, "")
		fs.IntVar(&o.Bound, "bound", 2, "")
		fs.IntVar(&o.Runs, "runs", 500, "")
		fs.IntVar(&o.Count, "count", 100, "")
		fs.StringVar(&o.Focus, "focus", "", "")
		fs.BoolVar(&o.Fine, "fine", false, "")
		fs.BoolVar(&o.Snap, "snap", false, "")
		fs.StringVar(&o.Out, "out", "hist.ndjson", "")
		fs.StringVar(&o.Scratch, "scratch", ".", "")
		fs.Parse(os.Args[2:])
		mongoScratch = o.Scratch
		err = runLin(&o)
	case "snap":
		fs := flag.NewFlagSet("snap", flag.ExitOnError)
		var o SnapOptions
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Steps, "steps", 40, "")
		fs.StringVar(&o.Dir, "dir", ".", "")
		fs.StringVar(&o.Data, "data", "data", "")
		fs.BoolVar(&o.Env, "env", false, "")
		fs.StringVar(&o.Load, "load", "", "")
		fs.StringVar(&o.Out, "out", "", "")
		fs.Parse(os.Args[2:])
		err = runSnap(&o)
	case "e2e":
		fs := flag.NewFlagSet("e2e", flag.ExitOnError)
		var o E2EOptions
		fs.StringVar(&o.Server, "server", "", "")
		fs.StringVar(&o.Mode, "mode", "stop", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Count, "count", 10, "")
		fs.StringVar(&o.Out, "out", "hist.ndjson", "")
		fs.StringVar(&o.Events, "events", "events.ndjson", "")
		fs.StringVar(&o.Scratch, "scratch", ".", "")
		fs.DurationVar(&o.Long, "long", time.Second, "")
		fs.Parse(os.Args[2:])
		err = runE2E(&o)
	case "conf":
		fs := flag.NewFlagSet("conf", flag.ExitOnError)
		var o ConfOptions
		fs.StringVar(&o.Server, "server", "", "")
		fs.StringVar(&o.Grid, "grid", "conf.json", "")
		fs.StringVar(&o.Part, "part", "mem", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Shard, "shard", 0, "")
		fs.IntVar(&o.Shards, "shards", 1, "")
		fs.Float64Var(&o.Share, "share", 1, "")
		fs.StringVar(&o.Out, "out", "trace.ndjson", "")
		fs.StringVar(&o.Scratch, "scratch", ".", "")
		fs.Parse(os.Args[2:])
		err = runConf(&o)
	case "nonce":
		fs := flag.NewFlagSet("nonce", flag.ExitOnError)
		var o NonceOptions
		fs.StringVar(&o.Server, "server", "", "")
		fs.Int64Var(&o.Seed, "seed", 1, "")
		fs.IntVar(&o.Claims, "claims", 3000, "")
		fs.StringVar(&o.Out, "out", "trace.ndjson", "")
		fs.StringVar(&o.Scratch, "scratch", ".", "")
		fs.Parse(os.Args[2:])
		err = runNonce(&o)
	default:
		err = fmt.Errorf("unknown command %s", os.Args[1])
	}
	closeMongo()
	if err != nil {
		fmt.Fprintln(os.Stderr, "h:", err)
		os.Exit(3)
	}
}

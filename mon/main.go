package mon

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strconv"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// Main is the program.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon run ID | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run":
		ck := checks[os.Args[2]]
		if ck == nil {
			fmt.Fprintln(os.Stderr, "no such check")
			os.Exit(2)
		}
		os.Exit(parent(ck, env("VERIF_TIER", "quick"), envInt("VERIF_SEED", 1)))
	case "child":
		a := os.Args[2:]
		child(checks[a[0]], a[1], atoi(a[2]), int(atoi(a[3])), int(atoi(a[4])), a[5])
	case "digest": // a process of C24
		digest(os.Args[2], os.Args[3])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		must(err)
		var v violation
		must(json.Unmarshal(b, &v))
		ck := checks[v.Property]
		scte35.Logger = log.New(io.Discard, "", 0)
		c := newCtx(ck, v.Tier, v.Seed, 0, 1)
		if ck.setup != nil {
			ck.setup(c)
		}
		for k := range ck.families {
			f := &ck.families[k]
			if f.name == v.Family {
				lo := v.Index
				if f.solo {
					lo = 0
				}
				for i := lo; i <= v.Index; i++ {
					c.runCase(f, i)
				}
			}
		}
		if ck.finish != nil {
			ck.finish(c)
		}
		if c.nviol > 0 {
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	default:
		os.Exit(2)
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func atoi(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	must(err)
	return v
}

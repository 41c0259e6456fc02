package runner

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"verif/sim/world"
)

// TestAny runs seeds of several profiles in turn until something is wrong.
func TestAny(t *testing.T) {
	props := strings.Fields(os.Getenv("ANY"))
	if len(props) == 0 {
		t.Skip()
	}
	n, _ := strconv.Atoi(os.Getenv("N"))
	st := world.NewStats()
	bad := false
	for i := 0; i < n && !bad; i++ {
		for _, prop := range props {
			seed := uint64(5000 + i)
			t.Run("run", func(t *testing.T) {
				res := world.Run(t, world.NewConfig(prop, seed), world.Profiles[prop], st, world.Options{NSteps: world.StepCount(prop, seed)})
				if v := res.Violation; v != nil {
					fmt.Printf("ANY %s seed %d: %s %v: %.150s\n", prop, seed, v.Class, v.Tags, v.Msg)
					bad = true
				}
				if res.Harness != "" {
					fmt.Printf("ANY %s seed %d: HARNESS %.300s\n", prop, seed, res.Harness)
					bad = true
				}
			})
			if bad {
				return
			}
		}
	}
}

// TestSmoke runs seeds in this process and prints what happens.
func TestSmoke(t *testing.T) {
	prop := os.Getenv("SMOKE")
	if prop == "" {
		t.Skip()
	}
	n, _ := strconv.Atoi(os.Getenv("N"))
	start, _ := strconv.Atoi(os.Getenv("START"))
	st := world.NewStats()
	classes := map[string]int{}
	t0 := time.Now()
	for i := 0; i < n; i++ {
		seed := uint64(start + i)
		cfg := world.NewConfig(prop, seed)
		cfg.Only = os.Getenv("ONLY")
		t.Run("run", func(t *testing.T) {
			o := world.Options{NSteps: world.StepCount(prop, seed)}
			if os.Getenv("V") != "" {
				o.Logf = func(f string, a ...any) { fmt.Printf(f+"\n", a...) }
			}
			res := world.Run(t, cfg, world.Profiles[prop], st, o)
			if res.Harness != "" {
				fmt.Printf("seed %d: HARNESS %s\n", seed, res.Harness)
				classes["harness"]++
			}
			if v := res.Violation; v != nil {
				k := fmt.Sprintf("%s %v: %.150s", v.Class, v.Tags, v.Msg)
				classes[v.Class]++
				if classes[v.Class] <= 40 {
					fmt.Printf("seed %d step %d: %s\n", seed, v.Step, k)
				}
			}
		})
	}
	d := time.Since(t0)
	fmt.Printf("%d runs %v: %v; steps %d ops %d evals %d situs %d acc %d rej %d maxleaves %d maxepoch %d maxalloc %dK ratio %.3f\n", n, d, classes, st.Steps, st.Ops, st.Evals, len(st.Situs), st.Accepts, st.Rejects, st.MaxLeaves, st.MaxEpoch, st.MaxAlloc>>10, st.MaxRatio)
	fmt.Println(st.Faults)
	fmt.Println(st.Kinds)
}

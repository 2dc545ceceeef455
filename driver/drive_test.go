package verifdrv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"defund/app"
)

func envI(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// TestDrive records VERIF_RUNS histories of profile VERIF_PROFILE, or the
// histories of the script VERIF_SCRIPT, into VERIF_OUT.
func TestDrive(t *testing.T) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("not run by the verification")
	}
	a := app.InitTestApp(true)
	rec := newRec(out)
	if f := os.Getenv("VERIF_SCRIPT"); f != "" {
		script(t, a, rec, f)
		return
	}
	p, ok := profiles[os.Getenv("VERIF_PROFILE")]
	if !ok {
		t.Fatalf("no profile %q", os.Getenv("VERIF_PROFILE"))
	}
	p.Obs, p.Inv = envI("VERIF_OBS", 0), envI("VERIF_INV", 0)
	seed, shard := envI("VERIF_SEED", 1), envI("VERIF_SHARD", 0)
	for i := 0; i < envI("VERIF_RUNS", 1); i++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(shard)*10007 + int64(i)))
		g := &Gen{r: r, rec: rec, p: p}
		rec.start(a, g.init())
		if p.Chain {
			g.chain()
		} else {
			g.run()
		}
		if p.Det > 0 {
			rec.replicas(a, p.Det)
		}
	}
	fmt.Printf("LINES %d\n", rec.n)
}

// script replays recorded or generated events.
func script(t *testing.T, a *app.App, rec *Rec, path string) {
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var e Ev
		if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
			t.Fatalf("%v: %s", err, sc.Text())
		}
		switch e.M {
		case "init":
			rec.start(a, &e)
		case "obs":
			rec.observe(&Gen{r: rand.New(rand.NewSource(1)), rec: rec})
		case "inv":
			rec.invariants(&Gen{r: rand.New(rand.NewSource(1)), rec: rec, nu: 2}, 3)
		case "det":
		default:
			rec.do(&e)
		}
	}
	fmt.Printf("LINES %d\n", rec.n)
}

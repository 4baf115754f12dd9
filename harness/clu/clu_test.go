package clu

import (
	"errors"
	"fmt"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/internal/vt"
)

var faultMix = Weights{"crash": 8, "ctrlcut": 4, "isolate": 5, "linkcut": 3, "lag": 3, "delete": 4, "demote": 3, "kill": 2, "wipe": 3,
	"long": 2, "crashapi": 3, "crashsql": 3, "ctlrestart": 1, "apifault": 2, "sqlfault": 3, "scale": 1, "wake": 3}

var dumpN = func() int {
	if os.Getenv("VERIF_FULL") != "" {
		return 100000
	}
	return 120
}()

func runHistory(t *testing.T, p Plan, prop string) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		r := NewRunner(p)
		w := r.W
		defer func() { w.Stop() }()
		r.Start()
		if r.InitOK {
			r.Run()
			r.Settle(40 * time.Minute)
		}
		c.Classes = r.Classes()
		if w.Unsupported != "" {
			return fmt.Errorf("%w: unsupported SQL %s", vt.ErrInconclusive, w.Unsupported)
		}
		if r.Settled && w.Viol["C01"] == "" {
			if m := r.FinalData(); m != "" {
				w.Viol["C01"] = m
			}
		}
		if r.Settled && w.Viol["C07"] == "" {
			if m := r.FinalSemiSync(); m != "" {
				w.Viol["C07"] = m
			}
		}
		if !r.Settled && w.Viol["C11"] == "" {
			w.Viol["C11"] = "the cluster does not become healthy again, state " + w.State() + " " + r.why
		}
		if v := w.Viol[prop]; v != "" {
			return errors.New(v + "\n" + w.Dump(dumpN))
		}
		c.Nontrivial = w.Notes["primary-change"] > 0 && w.Notes["ack"] > 0
		return nil
	})
	return c, berr
}

func testHistory(t *testing.T, prop string, mix Weights) {
	vt.Run(t, prop, func(t *rapid.T) Plan { return genPlan(t, mix, 2, 10) }, func(t *testing.T, p Plan) (vt.Case, error) { return runHistory(t, p, prop) })
}

func TestC01(t *testing.T) { testHistory(t, "C01", faultMix) }
func TestC02(t *testing.T) { testHistory(t, "C02", faultMix) }
func TestC07(t *testing.T) { testHistory(t, "C07", faultMix) }
func TestC09(t *testing.T) { testHistory(t, "C09", faultMix) }
func TestC11(t *testing.T) { testHistory(t, "C11", faultMix) }

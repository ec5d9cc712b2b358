package main

import (
	"encoding/json"
	"fmt"
	"strconv"

	"MODULE/noise"
	"MODULE/zsim/rt"
)

type lawReq struct {
	Noise  string   `json:"noise"`
	Int    bool     `json:"int"`
	X      string   `json:"x"`
	L0     int64    `json:"l0"`
	LInf   string   `json:"linf"`
	Eps    string   `json:"eps"`
	Delta  string   `json:"delta"`
	N      int      `json:"n"`
	Seed   uint64   `json:"seed"`
	Alphas []string `json:"alphas"`
	Thr    []string `json:"thr"`   // deltas for which to ask for a threshold
	Inv    []string `json:"inv"`   // thresholds for which to ask for the delta
	Reads  []rt.ReadPlan `json:"reads"`
}

func runLaw(line []byte) any {
	var q lawReq
	if err := json.Unmarshal(line, &q); err != nil {
		return map[string]any{"harness": err.Error()}
	}
	resetAll(q.Seed)
	rt.Src.Plan = q.Reads
	rt.Src.Plain = true
	var n noise.Noise = noise.Laplace()
	if q.Noise == "g" {
		n = noise.Gaussian()
	}
	rep := map[string]any{}
	vals := []string{}
	errs := map[string]string{}
	note := func(where string, err error) bool {
		if err != nil {
			errs[where] = err.Error()
		}
		return err == nil
	}
	linf, eps, delta := pf(q.LInf), pf(q.Eps), pf(q.Delta)
	panicked := ""
	body := func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok {
					panicked = e.Error()
					return
				}
				if s, ok := r.(string); ok {
					panicked = s
					return
				}
				panic(r)
			}
		}()
		for i := 0; i < q.N; i++ {
			if q.Int {
				v, err := n.AddNoiseInt64(pi(q.X), q.L0, pi(q.LInf), eps, delta)
				if !note("noise", err) {
					break
				}
				vals = append(vals, strconv.FormatInt(v, 10))
			} else {
				v, err := n.AddNoiseFloat64(pf(q.X), q.L0, linf, eps, delta)
				if !note("noise", err) {
					break
				}
				vals = append(vals, ff(v))
			}
		}
		cis := [][2]string{}
		for i, a := range q.Alphas {
			var c noise.ConfidenceInterval
			var err error
			if q.Int {
				c, err = n.ComputeConfidenceIntervalInt64(pi(q.X), q.L0, pi(q.LInf), eps, delta, pf(a))
			} else {
				c, err = n.ComputeConfidenceIntervalFloat64(pf(q.X), q.L0, linf, eps, delta, pf(a))
			}
			note(fmt.Sprint("ci", i), err)
			cis = append(cis, [2]string{ff(c.LowerBound), ff(c.UpperBound)})
		}
		rep["ci"] = cis
		thr := []string{}
		for i, t := range q.Thr {
			v, err := n.Threshold(q.L0, linf, eps, delta, pf(t))
			note(fmt.Sprint("thr", i), err)
			thr = append(thr, ff(v))
		}
		rep["thr"] = thr
		type inverter interface {
			DeltaForThreshold(int64, float64, float64, float64, float64) (float64, error)
		}
		inv := []string{}
		if d, ok := n.(inverter); ok {
			for i, t := range q.Inv {
				v, err := d.DeltaForThreshold(q.L0, linf, eps, delta, pf(t))
				note(fmt.Sprint("inv", i), err)
				inv = append(inv, ff(v))
			}
		}
		rep["inv"] = inv
		if q.Noise == "g" && errs["noise"] == "" && errs["ci0"] == "" {
			rep["sigma"] = ff(noise.SigmaForGaussian(q.L0, linf, eps, delta))
		}
	}
	s := rt.Run([]func(){body}, map[int]int{}, q.Seed, 0, 2000000000)
	rep["vals"] = vals
	rep["errs"] = errs
	rep["steps"] = s.Step
	if panicked != "" {
		rep["panic"] = panicked
	}
	if s.DeadMsg != "" {
		rep["exit"] = s.DeadMsg
	}
	if s.StuckMsg != "" {
		rep["stuck"] = s.StuckMsg
	}
	faults := map[string]int{}
	for k, c := range rt.Src.Faults {
		faults[k] = c
	}
	rep["faults"] = faults
	return rep
}

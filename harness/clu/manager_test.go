package clu

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"k8s.io/apimachinery/pkg/types"
	"pgregory.net/rapid"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"

	"verif/internal/vt"
	"verif/internal/world"
)

// MOp is a call of the cluster manager.
type MOp struct {
	Kind string  `json:"op"` // update, nostart, pause, stop, stopall
	X    int     `json:"x"`
	Wait float64 `json:"wait"`
}

// MPlan is a sequence of calls.
type MPlan struct {
	Interval int   `json:"interval"` // seconds
	Slow     []int `json:"slow"`     // ms per API call, per cluster
	Fail     []int `json:"fail"`     // 1: API calls for the cluster fail
	Ops      []MOp `json:"ops"`
}

var mClusters = []types.NamespacedName{{Namespace: "a", Name: "x"}, {Namespace: "b", Name: "x"}, {Namespace: "a", Name: "y"}, {Namespace: "a", Name: "x-y"}}

func genManager(t *rapid.T) MPlan {
	p := MPlan{Interval: rapid.SampledFrom([]int{5, 30, 1000}).Draw(t, "interval")}
	for range mClusters {
		p.Slow = append(p.Slow, rapid.SampledFrom([]int{0, 0, 100, 4000, 15000}).Draw(t, "slow"))
		p.Fail = append(p.Fail, rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "fail"))
	}
	n := rapid.IntRange(2, 14).Draw(t, "ops")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"update", "update", "update", "nostart", "nostart", "pause", "stop", "stop", "stopall"}).Draw(t, "op")
		if k == "stopall" && i < n-2 && rapid.IntRange(0, 3).Draw(t, "early") != 0 {
			k = "pause"
		}
		p.Ops = append(p.Ops, MOp{k, rapid.IntRange(0, len(mClusters)-1).Draw(t, "x"), rapid.SampledFrom([]float64{0, 0, 0.01, 1, 5, 12, 150, 200}).Draw(t, "wait")})
	}
	return p
}

// a check takes at most this long with the slowest API
const maxCheck = 140 * time.Second

func metricsOf(k types.NamespacedName) map[string]float64 {
	r := map[string]float64{}
	mfs, err := world.Registry.Gather()
	if err != nil {
		panic(err)
	}
	for _, mf := range mfs {
		for _, m := range mf.GetMetric() {
			l := map[string]string{}
			for _, x := range m.GetLabel() {
				l[x.GetName()] = x.GetValue()
			}
			if l["name"] != k.Name || l["namespace"] != k.Namespace {
				continue
			}
			switch {
			case m.Gauge != nil:
				r[mf.GetName()] = m.GetGauge().GetValue()
			case m.Counter != nil:
				r[mf.GetName()] = m.GetCounter().GetValue()
			default:
				r[mf.GetName()] = 0
			}
		}
	}
	return r
}

func runC14(t *testing.T, p MPlan) (c vt.Case, err error) {
	berr := vt.Bubble(t, func() error {
		var objs []client.Object
		idx := map[types.NamespacedName]int{}
		for i, k := range mClusters {
			cl := &mocov1beta2.MySQLCluster{}
			cl.Namespace, cl.Name, cl.UID = k.Namespace, k.Name, types.UID(fmt.Sprint(i))
			cl.Spec.Replicas, cl.Spec.Offline = 1, true
			sec := world.Pw.ToSecret()
			sec.Namespace, sec.Name = k.Namespace, "moco-"+k.Name
			objs = append(objs, cl, sec)
			idx[k] = i
		}
		n := len(mClusters)
		base := world.NewFake(objs...)
		var mu sync.Mutex
		calls := make([][]time.Time, n)
		completed := make([]time.Time, n)
		slow := func(ctx context.Context, i int) error {
			mu.Lock()
			calls[i] = append(calls[i], time.Now())
			mu.Unlock()
			if p.Slow[i] > 0 {
				select {
				case <-time.After(time.Duration(p.Slow[i]) * time.Millisecond):
				case <-ctx.Done():
				}
			}
			if err := ctx.Err(); err != nil {
				return err
			}
			if p.Fail[i] == 1 {
				return errors.New("injected")
			}
			return nil
		}
		cl := interceptor.NewClient(base, interceptor.Funcs{
			Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
				if _, ok := obj.(*mocov1beta2.MySQLCluster); ok {
					if i, ok := idx[key]; ok {
						if err := slow(ctx, i); err != nil {
							return err
						}
					}
				}
				return c.Get(ctx, key, obj, opts...)
			},
			SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, obj client.Object, opts ...client.SubResourceUpdateOption) error {
				if i, ok := idx[client.ObjectKeyFromObject(obj)]; ok {
					if err := slow(ctx, i); err != nil {
						return err
					}
					mu.Lock()
					completed[i] = time.Now()
					mu.Unlock()
				}
				return c.SubResource(sub).Update(ctx, obj, opts...)
			},
		})
		interval := time.Duration(p.Interval) * time.Second
		m := world.ManagerFor(cl, interval)
		running := make([]bool, n)
		since := make([]time.Time, n) // of the last change of running
		poked := make([]time.Time, n) // last update while running
		how := make([]string, n)      // how it was ended
		hasty := make([]bool, n)
		ended := make([]time.Time, n)
		// end notes that maintenance ends. If an earlier process may still be about to quit, the metrics are not judged.
		end := func(i int, kind string) {
			hasty[i] = time.Since(ended[i]) <= maxCheck
			running[i], since[i], how[i], ended[i] = false, time.Now(), kind, time.Now()
		}
		stoppedAll := false
		judge := func(step string) error {
			synctest.Wait()
			mu.Lock()
			defer mu.Unlock()
			now := time.Now()
			for i, k := range mClusters {
				var last time.Time
				if len(calls[i]) > 0 {
					last = calls[i][len(calls[i])-1]
				}
				if !running[i] {
					if how[i] == "" {
						if len(calls[i]) > 0 {
							return fmt.Errorf("%s: cluster %v was never started but is maintained", step, k)
						}
						if len(metricsOf(k)) > 0 {
							return fmt.Errorf("%s: cluster %v was never started but has metrics", step, k)
						}
						continue
					}
					if limit := since[i].Add(maxCheck); last.After(limit) {
						return fmt.Errorf("%s: cluster %v is still maintained %s after %s", step, k, last.Sub(since[i]), how[i])
					}
					if now.After(since[i].Add(maxCheck)) && !hasty[i] {
						ms := metricsOf(k)
						if how[i] == "pause" {
							for _, x := range []string{"available", "healthy", "ready_replicas", "errant_replicas"} {
								if v, ok := ms["moco_cluster_"+x]; !ok || !math.IsNaN(v) {
									return fmt.Errorf("%s: metric %s of paused cluster %v is %v (present: %v)", step, x, k, v, ok)
								}
							}
						} else if len(ms) > 0 {
							return fmt.Errorf("%s: metrics of stopped cluster %v remain: %v", step, k, ms)
						}
						c.Classes = append(c.Classes, "judged-"+how[i])
					}
					continue
				}
				if now.Sub(since[i]) > maxCheck+interval && now.Sub(last) > maxCheck+interval {
					return fmt.Errorf("%s: cluster %v is not maintained: the last activity was %s ago", step, k, now.Sub(last))
				}
				if now.Sub(poked[i]) > maxCheck && last.Before(poked[i]) {
					return fmt.Errorf("%s: cluster %v was not checked after an update", step, k)
				}
				if p.Fail[i] == 0 && now.Sub(since[i]) > maxCheck+interval && completed[i].After(since[i]) {
					ms := metricsOf(k)
					if v, ok := ms["moco_cluster_available"]; !ok || math.IsNaN(v) {
						return fmt.Errorf("%s: maintained cluster %v has no availability metric: %v %v", step, k, v, ok)
					}
					c.Classes = append(c.Classes, "judged-running")
				}
			}
			return nil
		}
		alive := 0
		for j, o := range p.Ops {
			k := mClusters[o.X]
			switch o.Kind {
			case "update":
				m.Update(k, "test")
				if !stoppedAll {
					if !running[o.X] {
						running[o.X], since[o.X] = true, time.Now()
					}
					poked[o.X] = time.Now()
					alive++
				}
			case "nostart":
				m.UpdateNoStart(k, "test")
				if running[o.X] {
					poked[o.X] = time.Now()
				}
			case "pause", "stop":
				if o.Kind == "stop" {
					m.Stop(k)
				} else {
					m.Pause(k)
				}
				if running[o.X] || how[o.X] == "pause" && o.Kind == "stop" {
					if !running[o.X] {
						c.Classes = append(c.Classes, "paused-then-stopped")
					}
					end(o.X, o.Kind)
				}
			case "stopall":
				for i := range running {
					if running[i] {
						end(i, "stop")
					}
				}
				m.StopAll()
				synctest.Wait()
				mu.Lock()
				before := make([]int, n)
				for i := range calls {
					before[i] = len(calls[i])
				}
				mu.Unlock()
				time.Sleep(2 * interval)
				mu.Lock()
				for i := range calls {
					if len(calls[i]) != before[i] {
						mu.Unlock()
						return fmt.Errorf("op %d: cluster %v is maintained after everything was stopped", j, mClusters[i])
					}
				}
				mu.Unlock()
				stoppedAll = true
				c.Classes = append(c.Classes, "stopall")
			}
			if o.Wait == 0 {
				continue // the next call comes at once
			}
			time.Sleep(time.Duration(o.Wait * float64(time.Second)))
			if e := judge(fmt.Sprintf("after op %d (%s)", j, o.Kind)); e != nil {
				return e
			}
		}
		time.Sleep(2*maxCheck + interval)
		if e := judge("at the end"); e != nil {
			return e
		}
		if !stoppedAll {
			m.StopAll()
		}
		c.Nontrivial = alive >= 2
		return nil
	})
	world.ResetMetrics()
	return c, berr
}

func TestC14(t *testing.T) { vt.Run(t, "C14", genManager, runC14) }

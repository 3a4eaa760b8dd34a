//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C38", &Scenario{Name: "histories", Weight: 1, Race: true, F: c38optimizers})
}

// ---------------------------------------------------------------- C38

type optConf struct {
	name                                     string
	step, momentum, clip, gamma, b1, b2, eps float64
}

func (t optConf) String() string {
	return fmt.Sprintf("%s step=%g momentum=%g clipping=%g gamma=%g beta=%g,%g epsilon=%g", t.name, t.step, t.momentum, t.clip, t.gamma, t.b1, t.b2, t.eps)
}

func (t optConf) make(how int) base.Optimizer {
	var o base.Optimizer
	switch how % 3 {
	case 0:
		o = base.NewOptimizer(t.name)
	case 1:
		o = base.NewSolver(t.name)()
	default:
		o = base.Solvers[t.name]()
	}
	s := o.(*base.SGDOptimizer)
	s.StepSize, s.Momentum, s.GradientClipping, s.Epsilon = t.step, t.momentum, t.clip, t.eps
	s.RMSPropGamma, s.Beta1, s.Beta2 = t.gamma, t.b1, t.b2
	return o
}

// updates feeds the gradients to a new optimiser and returns its updates.
func (t optConf) updates(how int, grads []*mat.Dense) (out []*mat.Dense) {
	o := t.make(how)
	for _, g := range grads {
		r, c := g.Dims()
		u := mat.NewDense(r, c, nil)
		o.GetUpdate(u, g)
		out = append(out, u)
	}
	return
}

// c38optimizers feeds histories of gradients to optimisers, several at the same time, and judges their
// updates by the relations every one of them has to satisfy.
func c38optimizers(c *C) {
	r := c.R
	t := optConf{name: r.PickS("sgd", "adagrad", "rmsprop", "adadelta", "adam", "adam"), step: r.PickF(1e-3, 0.05, 0.5), momentum: r.PickF(0, 0, 0.5, 0.9), clip: r.PickF(0, 0, 1, 10), gamma: r.PickF(0.9, 0.5), b1: r.PickF(0.9, 0.5, 0), b2: r.PickF(0.999, 0.9), eps: r.PickF(1e-8, 1e-4)}
	rows, cols, steps := 1+r.Intn(4), 1+r.Intn(3), 1+r.Intn(12)
	if r.Chance(30) { // bias corrections and decays have run out
		steps = 100 + r.Intn(400)
	}
	scale := r.PickF(0.1, 1, 1, 10, 1, 1, 1e-7, 1e6)
	grads := make([]*mat.Dense, steps)
	for k := range grads {
		grads[k] = normMat(r, rows, cols, scale)
		if r.Chance(3) { // gradients much larger or smaller than the others
			grads[k].Scale(r.PickF(0.01, 20), grads[k])
		}
		if r.Chance(6) { // nothing to do for one parameter
			grads[k].Set(r.Intn(rows), r.Intn(cols), 0)
		}
	}
	form := r.PickS("", "", formNames[0], formNames[1], formNames[2])
	how := r.Intn(3)
	theta0 := normMat(r, rows, cols, 1)
	twins := 1 + r.Intn(3)
	c.Desc("%s, %dx%d parameters, %d steps, %d optimisers at the same time%s", t, rows, cols, steps, twins, formName(form))
	keep := make([]*mat.Dense, steps)
	for k := range grads {
		keep[k] = cp(grads[k])
	}
	type history struct {
		theta, update []*mat.Dense
		steps         []uint64
		same          bool
	}
	hist := make([]history, twins)
	c.Sim("updates", func() {
		par(twins, func(w int) {
			h := &hist[w]
			o := t.make(how)
			th := cp(theta0)
			o.SetTheta(th)
			h.same = o.GetTheta() == th
			for _, g := range grads {
				e := (&Data{X: g}).as(form)
				o.UpdateParams(e.mX())
				h.theta = append(h.theta, cp(th))
				h.update = append(h.update, cp(o.(*base.SGDOptimizer).Update))
				h.steps = append(h.steps, o.GetTimeStep())
				h.same = h.same && o.GetTheta() == th
			}
		})
	})
	var plain, slow, clipped []*mat.Dense
	parts := make([][]*mat.Dense, cols)
	c.Sim("related", func() {
		plain = t.updates(how+1, grads)
		t0 := t
		t0.momentum = 0
		slow = t0.updates(how, grads)
		tc := t
		tc.clip = 0
		var gs []*mat.Dense
		for _, g := range grads {
			g = cp(g)
			if t.clip > 0 {
				for j := 0; j < cols; j++ {
					s := 0.
					for i := 0; i < rows; i++ {
						s += g.At(i, j) * g.At(i, j)
					}
					if s = math.Sqrt(s); s > t.clip {
						for i := 0; i < rows; i++ {
							g.Set(i, j, g.At(i, j)*t.clip/s)
						}
					}
				}
			}
			gs = append(gs, g)
		}
		clipped = tc.updates(how, gs)
		par(cols, func(j int) {
			var gj []*mat.Dense
			for _, g := range grads {
				gj = append(gj, colOf(g, j))
			}
			parts[j] = t.updates(how, gj)
		})
	})
	for k := range grads {
		c.Check(DiffDense(grads[k], keep[k], 0) == "", "gradient-changed", "step %d: the gradient given became %s", k, fmtMat(grads[k]))
	}
	for w := range hist {
		h := &hist[w]
		c.Check(h.same, "theta", "the optimiser no longer refers to the parameters it was given")
		prev := theta0
		for k := range grads {
			c.Check(h.steps[k] == uint64(k+1), "steps", "%d steps counted after %d", h.steps[k], k+1)
			d := DiffDense(h.update[k], plain[k], 1e-12)
			c.Check(d == "", "update", "optimiser %d step %d: UpdateParams and GetUpdate differ for the same gradients: %s", w, k, d)
			sum := cp(prev)
			sum.Add(sum, h.update[k])
			d = DiffDense(h.theta[k], sum, 1e-12)
			c.Check(d == "", "theta", "optimiser %d step %d: the parameters did not move by the update: %s", w, k, d)
			prev = h.theta[k]
		}
	}
	for k := range grads {
		d := DiffDense(plain[k], clipped[k], 1e-9)
		c.Check(d == "", "clipping", "step %d: clipping at %g differs from giving clipped gradients: %s", k, t.clip, d)
		want := cp(slow[k])
		if k > 0 {
			var p mat.Dense
			p.Scale(t.momentum, plain[k-1])
			want.Add(want, &p)
		}
		d = DiffDense(plain[k], want, 1e-9)
		c.Check(d == "", "momentum", "step %d: the update is not momentum %g times the one before plus the update without momentum: %s", k, t.momentum, d)
		for j := 0; j < cols; j++ {
			d = DiffDense(colOf(plain[k], j), parts[j][k], 1e-12)
			c.Check(d == "", "columns", "step %d: column %d differs from the same column alone: %s", k, j, d)
		}
		if t.name == "adam" {
			continue
		}
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				g, u := grads[k].At(i, j), slow[k].At(i, j)
				c.Check(g > 0 && u < 0 || g < 0 && u > 0 || g == 0 && u == 0, "not-descending", "step %d: gradient %g, update without momentum %g", k, g, u)
			}
		}
		c.Probe(t.name)
	}
	if t.name == "adam" {
		c38adam(c, t, grads, slow)
	} else {
		c38squares(c, t, grads, slow)
	}
}

// c38squares judges the others by their recursions: the step of plain descent decreases with time;
// Adagrad divides it by the root of the sum of the squares of the gradients before, RMSProp by the root of
// their running mean once that exceeds one, Adadelta by the root of the running mean, this gradient
// included, times that of the updates.
func c38squares(c *C, t optConf, grads, got []*mat.Dense) {
	rows, cols := grads[0].Dims()
	G, U := mat.NewDense(rows, cols, nil), mat.NewDense(rows, cols, nil)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			G.Set(i, j, t.eps)
			U.Set(i, j, 1)
		}
	}
	for k, g := range grads {
		time := float64(k + 1)
		falling := t.step * 100 / (100 + time)
		for j := 0; j < cols; j++ {
			f := 1.0
			if s := mat.Norm(colOf(g, j), 2); t.clip > 0 && s > t.clip {
				f = t.clip / s
			}
			for i := 0; i < rows; i++ {
				x := g.At(i, j) * f
				sq, up := G.At(i, j), U.At(i, j)
				var want float64
				switch t.name {
				case "sgd":
					want = -falling / math.Sqrt(time) * x
				case "adagrad":
					want = -t.step * x
					if k > 0 {
						want /= math.Sqrt(sq) + t.eps
					}
					sq += x * x
				case "rmsprop":
					want = -t.step * x
					if k > 0 && sq > 1 {
						if sq < 1+1e-9 {
							return // at the limit either way is right
						}
						want /= math.Sqrt(sq + t.eps)
					}
					sq = t.gamma*sq + (1-t.gamma)*x*x
				case "adadelta":
					sq = t.gamma*sq + (1-t.gamma)*x*x
					want = -falling * x
					if k > 0 {
						want = -math.Sqrt(up) / math.Sqrt(sq+t.eps) * x
					}
					up = t.gamma*up + (1-t.gamma)*want*want
				}
				G.Set(i, j, sq)
				U.Set(i, j, up)
				c.Check(sameF(got[k].At(i, j), want, 1e-9), "rule", "step %d: parameter (%d,%d) moves by %g, %s prescribes %g", k, i, j, got[k].At(i, j), t.name, want)
			}
		}
	}
}

// c38adam judges Adam by the algorithm of its paper.
func c38adam(c *C, t optConf, grads, got []*mat.Dense) {
	rows, cols := grads[0].Dims()
	m, v := mat.NewDense(rows, cols, nil), mat.NewDense(rows, cols, nil)
	for k, g := range grads {
		for j := 0; j < cols; j++ {
			f := 1.0
			if s := mat.Norm(colOf(g, j), 2); t.clip > 0 && s > t.clip {
				f = t.clip / s
			}
			for i := 0; i < rows; i++ {
				x := g.At(i, j) * f
				m.Set(i, j, t.b1*m.At(i, j)+(1-t.b1)*x)
				v.Set(i, j, t.b2*v.At(i, j)+(1-t.b2)*x*x)
				mh, vh := m.At(i, j)/(1-math.Pow(t.b1, float64(k+1))), v.At(i, j)/(1-math.Pow(t.b2, float64(k+1)))
				want := -t.step * mh / (math.Sqrt(vh) + t.eps)
				c.Check(sameF(got[k].At(i, j), want, 1e-9), "adam", "step %d: parameter (%d,%d) moves by %g, Adam prescribes %g", k, i, j, got[k].At(i, j), want)
			}
		}
	}
	c.Probe("adam")
}

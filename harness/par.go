package main

import "sync"

func init() { ops["par"] = opPar }

// opPar runs cases at the same time, each of them as often as asked.
//
//	case: cases, times
//	out:  outs, those of the first case first
func opPar(c M) M {
	cases, times := c.ms("cases"), c.i("times")
	outs := make(L, len(cases)*times)
	crashes := make([]interface{}, len(outs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { crashes[i] = recover() }()
			sub := round(cases[i/times])
			<-start
			outs[i] = ops[sub.s("op")](sub)
		}(i)
	}
	close(start)
	wg.Wait()
	for _, x := range crashes {
		if x != nil {
			panic(x)
		}
	}
	return M{"outs": outs}
}

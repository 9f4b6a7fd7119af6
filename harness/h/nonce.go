package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/hyperonym/ratus"
)

// The nonce driver lets instances of the program issue many nonces.

type NonceOptions struct {
	Server  string
	Seed    int64
	Claims  int // of each instance
	Out     string
	Scratch string
}

const nonceTasks = 4

func nonceInstance(o *NonceOptions, n int) (J, error) {
	dir := filepath.Join(o.Scratch, fmt.Sprintf("n%d", n))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	p, err := startServer(o.Server, dir)
	if err != nil {
		return nil, err
	}
	defer p.kill()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: p.base, Timeout: e2ePatience})
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	tasks := make([]J, nonceTasks)
	var wg sync.WaitGroup
	for i := range tasks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(o.Seed*100 + int64(n*nonceTasks+i)))
			id := fmt.Sprintf("t%d", i)
			ns, cs := []string{}, []J{}
			c.InsertTask(ctx, &ratus.Task{ID: id, Topic: "x", Payload: 1})
			for k := 0; k < o.Claims/nonceTasks; k++ {
				t, err := c.UpsertPromise(ctx, &ratus.Promise{ID: id, Consumer: "c"})
				if err != nil {
					continue
				}
				ns = append(ns, t.Nonce)
			}
			commit := func(nonce string) {
				b, _ := json.Marshal(J{"nonce": nonce})
				q, _ := http.NewRequestWithContext(ctx, http.MethodPatch, p.base+"/v1/topics/x/tasks/"+id, strings.NewReader(string(b)))
				code := 0
				if a, err := http.DefaultClient.Do(q); err == nil {
					code = a.StatusCode
					a.Body.Close()
				}
				cs = append(cs, J{"nonce": nonce, "code": code})
			}
			if len(ns) > 1 {
				last := ns[len(ns)-1]
				for k := 0; k < 60; k++ {
					commit(ns[r.Intn(len(ns)-1)])
				}
				for _, n := range []string{last[:len(last)/2], last + "A", last[1:] + last[:1], strings.ToLower(last) + "z", " " + last} {
					commit(n)
				}
				commit(last)
				commit(last)
			}
			tasks[i] = J{"nonces": ns, "commits": cs}
		}()
	}
	wg.Wait()
	return J{"t": "instance", "claims": o.Claims / nonceTasks * nonceTasks, "tasks": tasks}, nil
}

func runNonce(o *NonceOptions) error {
	realClock = true
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	n := 0
	// three at the same time, then one more at the first one's place
	for _, k := range []int{3, 1} {
		es, errs := make([]J, k), make([]error, k)
		var wg sync.WaitGroup
		for i := range es {
			wg.Add(1)
			n++
			go func(n int) {
				defer wg.Done()
				es[i], errs[i] = nonceInstance(o, n)
			}(n)
		}
		wg.Wait()
		for i := range es {
			if errs[i] != nil {
				return errs[i]
			}
			b, err := json.Marshal(es[i])
			if err != nil {
				return err
			}
			w.Write(append(b, '\n'))
		}
	}
	return nil
}

package p21

import (
	"context"
	"errors"
	"net/http"
	"time"

	clustersmgmt "verifgen/api/clustersmgmt"
	v1 "verifgen/api/clustersmgmt/v1"
	"verifgen/zzverif/cx"
	"verifgen/zzverif/nd"
)

// ctx is a context with a deadline.
type ctx struct {
	context.Context
	deadline time.Time
	has      bool
}

func (c *ctx) Deadline() (time.Time, bool) { return c.deadline, c.has }

func (c *ctx) Value(k interface{}) interface{} {
	if k == "k" {
		return "v"
	}
	return c.Context.Value(k)
}

var errFailed = errors.New("failed")

func poll(t *cx.Transport) *v1.ClusterPollRequest {
	return clustersmgmt.NewClient(t, "/api/clusters_mgmt").V1().Clusters().Cluster("1").Poll()
}

type step struct {
	fail   bool
	bad    bool
	status int
	first  bool
	second bool
}

// The object is requested till the status is one of the accepted ones and all the predicates are
// satisfied, waiting exactly the interval between requests. It stops when the next request would be
// after the deadline, or when a request can't be sent, and the result is the last response.
func CheckPoll() {
	nd.FakeClock(func() {
		max := nd.Bound("requests", 3, 4)
		interval := time.Duration(nd.Int64("interval"))
		limit := time.Duration(nd.Int64("limit"))
		nd.Assume(interval > 0 && interval < 1<<59)
		nd.Assume(limit >= 0 && limit < 1<<61)
		nd.Assume(limit < interval*time.Duration(max))
		nstatus := nd.Choose("statuses", 3)
		npred := nd.Choose("predicates", 3)
		a, b := nd.IntRange("a", 200, 599), nd.IntRange("b", 200, 599)
		steps := make([]step, max)
		for i := range steps {
			s := &steps[i]
			s.status = nd.IntRange("status", 200, 599)
			s.fail = nd.Bool("fail")
			s.bad = nd.Bool("bad")
			s.first = nd.Bool("first")
			s.second = nd.Bool("second")
		}
		start := time.Now()
		t := &cx.Transport{}
		var times []time.Duration
		t.Respond = func(n int, r *cx.Request) (*http.Response, error) {
			nd.Assert(n < max, "there are more requests than expected")
			times = append(times, time.Now().Sub(start))
			if steps[n].fail {
				return nil, errFailed
			}
			if steps[n].bad {
				return t.Response(steps[n].status, `{"id":"x","name":`), nil
			}
			return t.Response(steps[n].status, `{"id":"x","name":"y"}`), nil
		}
		r := poll(t).Interval(interval)
		if nstatus > 0 {
			r.Status(a)
		}
		if nstatus > 1 {
			r.Status(b)
		}
		if npred > 0 {
			r.Predicate(func(x *v1.ClusterGetResponse) bool {
				n := len(times) - 1
				nd.Assert(x.Status() == steps[n].status, "the predicate receives other response")
				return steps[n].first
			})
		}
		if npred > 1 {
			r.Predicate(func(x *v1.ClusterGetResponse) bool { return steps[len(times)-1].second })
		}
		p, err := r.StartContext(&ctx{context.Background(), start.Add(limit), true})
		nd.Reach("finished")

		// What should have happened:
		n := 0
		failed := false
		for {
			s := steps[n]
			if s.fail {
				failed = true
				break
			}
			ok := false
			switch nstatus {
			case 0:
				ok = s.status == 200
			case 1:
				ok = s.status == a
			case 2:
				ok = s.status == a || s.status == b
			}
			if npred > 0 && !s.first || npred > 1 && !s.second {
				ok = false
			}
			if ok || interval*time.Duration(n+1) > limit {
				break
			}
			n++
			if n == max {
				nd.Assume(false)
			}
		}
		nd.Assert(len(times) == n+1, "the number of requests is wrong")
		for i, x := range times {
			nd.Assert(x == interval*time.Duration(i), "a request was sent at other time")
		}
		if failed {
			nd.Assert(err == errFailed && p == nil, "the failure isn't reported")
			return
		}
		nd.Assert(p != nil && p.Status() == steps[n].status, "the result isn't the last response")
		if steps[n].bad {
			nd.Assert(err != nil, "a response that can't be read is accepted without an error")
			return
		}
		if steps[n].status >= 400 {
			nd.Assert(err != nil && p.Error() == err && p.Error().Status() == steps[n].status, "the error of the response isn't returned")
		} else {
			nd.Assert(err == nil && p.Body().Name() == "y" && p.Error() == nil, "the body of the response isn't returned")
		}
	})
}

// The deadline and a positive interval are mandatory, otherwise nothing is sent.
func CheckMandatory() {
	nd.FakeClock(func() {
		interval := time.Duration(nd.Int64("interval"))
		has := nd.Bool("deadline")
		nd.Assume(!has || interval <= 0)
		t := &cx.Transport{}
		p, err := poll(t).Interval(interval).StartContext(&ctx{context.Background(), time.Now().Add(time.Hour), has})
		nd.Reach("finished")
		nd.Assert(err != nil && p == nil, "the polling has been accepted")
		nd.Assert(len(t.Requests) == 0, "a request has been sent")
	})
}

// All the requests contain the parameters, headers and context of the polling.
func CheckRequests() {
	nd.FakeClock(func() {
		deep := nd.Bool("deep")
		s := nd.StringOf("s", 1, 1, "ab")
		t := &cx.Transport{}
		t.Respond = func(n int, r *cx.Request) (*http.Response, error) {
			return t.Response([]int{202, 202, 200}[n], `{}`), nil
		}
		c := &ctx{context.Background(), time.Now().Add(time.Hour), true}
		_, err := poll(t).Interval(time.Second).Deep(deep).Parameter("x", s).Header("Y", s).StartContext(c)
		nd.Reach("finished")
		nd.Assert(err == nil && len(t.Requests) == 3, "the number of requests is wrong")
		text := "false"
		if deep {
			text = "true"
		}
		for _, q := range t.Requests {
			nd.Assert(q.Method == "GET" && q.Path == "/api/clusters_mgmt/v1/clusters/1", "the method or path are wrong")
			nd.Assert(len(q.Query) == 2 && len(q.Query["x"]) == 1 && q.Query["x"][0] == s && len(q.Query["deep"]) == 1 && q.Query["deep"][0] == text, "the query is wrong")
			nd.Assert(len(q.Header) == 1 && len(q.Header["Y"]) == 1 && q.Header["Y"][0] == s, "the header is wrong")
			nd.Assert(q.Context.Value("k") == "v", "the context is wrong")
			d, ok := q.Context.Deadline()
			nd.Assert(ok && d.Equal(c.deadline), "the deadline is wrong")
		}
	})
}

// Polling can need many requests, and have many accepted statuses and predicates.
func CheckLong() {
	nd.FakeClock(func() {
		counts := []int{1, 4, 9, 33, 130}
		n := counts[nd.Choose("requests", len(counts))]
		npred := nd.Choose("predicates", 6)
		nstatus := nd.Choose("statuses", 6)
		last := []int{200, 207, 221, 228, 300}[nd.Choose("status", 5)]
		lacking := nd.Choose("lacking", npred+1)
		start := time.Now()
		interval := time.Minute
		if n < 9 {
			interval = time.Duration(nd.Int64("interval"))
			nd.Assume(interval > 0 && interval < 1<<50)
		}
		deadline := interval * time.Duration(n)
		t := &cx.Transport{}
		t.Respond = func(i int, r *cx.Request) (*http.Response, error) {
			nd.Assert(r.Context.Err() == nil, "the request is sent with a context that has been cancelled")
			nd.Assert(i <= n, "there are more requests than expected")
			nd.Assert(time.Now().Sub(start) == interval*time.Duration(i), "a request was sent at other time")
			if i < n && i%3 == 0 {
				return t.Response(404, `{"reason":"none"}`), nil
			}
			if i < n && i%3 == 1 {
				return t.Response(last, ``), nil
			}
			return t.Response(last, `{"name":"y"}`), nil
		}
		r := poll(t).Interval(interval)
		accepted := nstatus == 0 && last == 200
		for i := 0; i < nstatus; i++ {
			r.Status(200 + 7*i)
			accepted = accepted || last == 200+7*i
		}
		for i := 0; i < npred; i++ {
			i := i
			r.Predicate(func(x *v1.ClusterGetResponse) bool {
				return len(t.Requests) > n && i != lacking
			})
		}
		if npred == 0 && accepted {
			return
		}
		p, err := r.StartContext(&ctx{context.Background(), start.Add(deadline), true})
		nd.Reach("finished")
		// The last possible request is the one at the deadline, so the result is always the response to it:
		nd.Assert(len(t.Requests) == n+1, "the number of requests is wrong")
		nd.Assert(err == nil && p.Status() == last && p.Body().Name() == "y" && t.Closed == n+1, "the result isn't the last response")
	})
}

package bkt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Azure/azure-sdk-for-go/sdk/azcore"
	"github.com/Azure/azure-sdk-for-go/sdk/azcore/policy"
	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob"
	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/cybozu-go/moco/pkg/bucket"
	"google.golang.org/api/option"
	"pgregory.net/rapid"

	"verif/internal/objstore"
	"verif/internal/vt"
)

func TestMain(m *testing.M) {
	for k, v := range map[string]string{"AWS_EC2_METADATA_DISABLED": "true", "AWS_CONFIG_FILE": "/dev/null", "AWS_SHARED_CREDENTIALS_FILE": "/dev/null", "AWS_REGION": "us-east-1"} {
		os.Setenv(k, v)
	}
	os.Exit(m.Run())
}

// Op is one call of the bucket interface.
type Op struct {
	Op    string          `json:"op"` // put, get, list
	Key   int             `json:"key"`
	Size  int             `json:"size,omitempty"`
	Hint  int             `json:"hint,omitempty"`  // 0: exact, otherwise wrong by this many bytes
	Chunk int             `json:"chunk,omitempty"` // the reader returns at most so many bytes at a time
	Eof   bool            `json:"eof,omitempty"`   // the last read returns data and EOF together
	Err   int             `json:"err,omitempty"`   // the reader fails after so many bytes (1-based: 1 is at once)
	Fault *objstore.Fault `json:"fault,omitempty"`
}

// Plan is a history of a bucket.
type Plan struct {
	Kind  string `json:"kind"`
	Page  int    `json:"page"`
	Pre   int    `json:"pre"` // objects present at the start
	Style bool   `json:"style,omitempty"`
	Ops   []Op   `json:"ops"`
}

var keys = []string{"moco/ns/test/20240101-000000/dump.tar", "moco/ns/test/20240101-000000/binlog.tar.zst", "moco/ns/test/20240102-000000/dump.tar", "moco/ns/test-2/20240101-000000/dump.tar",
	"moco/ns2/test/20240101-000000/dump.tar", "moco/ns/test", "a b+c&d=é%20?#<x>/~!'()*", "x", "moco/ns/test/20240101-000000/.hidden", "moco/ns/test/a//b"}

var prefixes = []string{"moco/ns/test/", "", "moco/", "moco/ns/test", "moco/ns/test-2/", "pre/", "a b+c&d=é%20?#<", "nothing/", "x", "pre/1"}

var edges = map[string][]int{"azure": {4 << 20, 8 << 20, 1 << 20}, "gcs": {16 << 20, 256 << 10, 32 << 20}, "s3": {5 << 20, 8 << 20, 16 << 20}}

func genPlan(t *rapid.T) Plan {
	p := Plan{Kind: []string{"gcs", "azure", "gcs", "azure", "s3"}[vt.Uni(t, "kind", 5)], Page: []int{1, 2, 3, 7, 0}[vt.Uni(t, "page", 5)], Pre: []int{0, 3, 10, 25}[vt.Uni(t, "pre", 4)], Style: vt.Uni(t, "style", 2) == 1}
	if p.Page == 0 && vt.Uni(t, "many", 3) == 2 {
		p.Pre = []int{999, 1000, 1001, 2000, 2500}[vt.Uni(t, "npre", 5)]
	}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := Op{Op: []string{"put", "put", "get", "get", "list"}[vt.Uni(t, "op", 5)], Key: vt.Uni(t, "key", len(keys))}
		if i > 0 && vt.Uni(t, "again", 4) > 0 {
			o.Key = p.Ops[vt.Uni(t, "which", i)].Key
		}
		if o.Op == "list" && vt.Uni(t, "common", 2) == 1 {
			o.Key = []int{1, 5, 2, 0}[vt.Uni(t, "lp", 4)]
		}
		if o.Op == "put" {
			switch vt.Uni(t, "size", 12) {
			case 0:
				o.Size = 0
			case 1:
				o.Size = 1
			case 2, 3, 4, 5, 6:
				o.Size = rapid.IntRange(2, 20000).Draw(t, "small")
			case 7:
				o.Size = rapid.IntRange(20000, 1<<20).Draw(t, "mid")
			default:
				e := edges[p.Kind]
				o.Size = e[vt.Uni(t, "edge", len(e))] + []int{0, -1, 1, 12345}[vt.Uni(t, "off", 4)]
			}
			if p.Kind == "s3" && vt.Uni(t, "huge", 16) == 15 {
				o.Size = 128<<20 + []int{0, -1, 1, 6 << 20}[vt.Uni(t, "hoff", 4)]
			}
			o.Hint = []int{0, 0, 512, -o.Size, 3 << 20}[vt.Uni(t, "hint", 5)]
			o.Chunk = []int{0, 0, 1 << 16, 1000, 1<<20 + 1}[vt.Uni(t, "chunk", 5)]
			o.Eof = vt.Uni(t, "eof", 2) == 1
			if vt.Uni(t, "rerr", 8) == 7 {
				o.Err = 1 + []int{0, o.Size / 2, o.Size, o.Size - 1}[vt.Uni(t, "errat", 4)]
				if o.Err < 1 {
					o.Err = 1
				}
			}
		}
		if vt.Uni(t, "fault", 3) == 2 {
			o.Fault = &objstore.Fault{At: 1 + []int{0, 0, 1, 1, 2, 3, 4}[vt.Uni(t, "at", 7)], N: []int{1, 1, 1, 2, -1}[vt.Uni(t, "nf", 5)],
				Mode: []string{"500", "503", "403", "drop", "adrop", "a500", "a503", "a403", "trunc", "trunc"}[vt.Uni(t, "mode", 10)]}
			if o.Fault.Mode == "trunc" && o.Fault.N < 0 {
				o.Fault.N = 6 // the GCS client reopens a broken body at once and for ever
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

var errRead = errors.New("injected read failure")

type reader struct {
	b      []byte
	chunk  int
	eof    bool
	failAt int // bytes left until it fails; negative: never
}

func (r *reader) Read(p []byte) (int, error) {
	if r.failAt == 0 {
		return 0, errRead
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 {
		n = min(n, r.chunk)
	}
	if r.failAt > 0 {
		n = min(n, r.failAt)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if r.failAt > 0 {
		r.failAt -= n
	}
	if len(r.b) == 0 && r.eof && r.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// content is pseudo-random and different for every put.
func content(seed uint64, n int) []byte {
	b := make([]byte, n+8)
	x := seed*0x9e3779b97f4a7c15 + 1
	for i := 0; i < n; i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		for k := 0; k < 8; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	return b[:n]
}

type cred struct{}

func (cred) GetToken(context.Context, policy.TokenRequestOptions) (azcore.AccessToken, error) {
	return azcore.AccessToken{Token: "t", ExpiresOn: time.Now().Add(1000 * time.Hour)}, nil
}

func open(p Plan, s *objstore.Store) (bucket.Bucket, error) {
	hc := &http.Client{Transport: s}
	switch p.Kind {
	case "gcs":
		return bucket.NewGCSBucket(context.Background(), s.Bucket, option.WithHTTPClient(hc), option.WithEndpoint("http://storage.invalid/storage/v1/"))
	case "azure":
		return bucket.NewAzureBucket(context.Background(), "https://acct.blob.invalid/", s.Bucket, cred{}, bucket.WithAzureClientOptions(&azblob.ClientOptions{ClientOptions: azcore.ClientOptions{Transport: s}}))
	}
	ep := "https://s3.invalid"
	if p.Style {
		ep = "http://s3.invalid"
	}
	opts := []func(*s3.Options){bucket.WithHTTPClient(hc), bucket.WithEndpointURL(ep), bucket.WithRegion("us-east-1"), bucket.WithPathStyle(),
		bucket.WithCredentials(aws.CredentialsProviderFunc(func(context.Context) (aws.Credentials, error) {
			return aws.Credentials{AccessKeyID: "k", SecretAccessKey: "s"}, nil
		}))}
	return bucket.NewS3Bucket(s.Bucket, opts...)
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func run(t *testing.T, p Plan) (c vt.Case, err error) {
	cls := map[string]bool{p.Kind: true}
	err = vt.Bubble(t, func() error {
		s := objstore.New(p.Kind, "bkt", p.Page)
		b, e := open(p, s)
		if e != nil {
			return fmt.Errorf("%w: %v", vt.ErrInconclusive, e)
		}
		model := map[string][]byte{}
		for i := 0; i < p.Pre; i++ {
			k := fmt.Sprintf("pre/%d/dump.tar", i)
			s.Objects[k] = []byte(k)
			model[k] = s.Objects[k]
		}
		for i, o := range p.Ops {
			if e := one(p, s, b, model, i, o, cls); e != nil {
				var hits string
				if len(s.Hits) > 0 {
					hits = fmt.Sprintf(" [fault %s at %s]", o.Fault.Mode, s.Hits[0])
				}
				return fmt.Errorf("%s: step %d (%s %s): %w%s", p.Kind, i+1, o.Op, keys[o.Key], e, hits)
			}
			if len(s.Bad) > 0 {
				return fmt.Errorf("%w: %s", vt.ErrInconclusive, s.Bad[0])
			}
		}
		return nil
	})
	for k := range cls {
		c.Classes = append(c.Classes, k)
	}
	sort.Strings(c.Classes)
	c.Nontrivial = cls["fault"] || cls["parts"] || cls["pages"] || cls["read-error"]
	return c, err
}

func one(p Plan, s *objstore.Store, b bucket.Bucket, model map[string][]byte, i int, o Op, cls map[string]bool) error {
	s.Mu.Lock()
	s.Reqs, s.F, s.Hits, s.Log = 0, o.Fault, nil, nil
	s.Mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	key := keys[o.Key]
	switch o.Op {
	case "put":
		data := content(uint64(i+1), o.Size)
		r := &reader{b: data, chunk: o.Chunk, eof: o.Eof, failAt: -1}
		if o.Err > 0 {
			r.failAt = o.Err - 1
			cls["read-error"] = true
		}
		var before map[string]bool
		before = map[string]bool{}
		s.Mu.Lock()
		for k := range s.Objects {
			before[k] = true
		}
		s.Mu.Unlock()
		e := b.Put(ctx, key, r, int64(max(0, o.Size+o.Hint)))
		cancel()
		s.Mu.Lock()
		defer s.Mu.Unlock()
		hit := len(s.Hits) > 0
		if hit {
			cls["fault"] = true
		}
		if s.Reqs-len(s.Hits) > 1 && o.Err == 0 && !hit {
			cls["parts"] = true
		}
		got, ok := s.Objects[key]
		old, had := model[key]
		for k := range s.Objects {
			if !before[k] && k != key {
				return fmt.Errorf("object %q appeared", k)
			}
		}
		if len(s.Objects) < len(before) {
			return errors.New("an object vanished")
		}
		if e == nil {
			if o.Err > 0 {
				return fmt.Errorf("succeeded although the data could not be read (stored %d of %d bytes)", len(got), o.Size)
			}
			if !ok || !same(got, data) {
				return fmt.Errorf("succeeded but %d bytes are stored (%v), want %d", len(got), ok, o.Size)
			}
			if hit {
				cls["recovered"] = true
			}
			model[key] = data
			cls["put"] = true
			return nil
		}
		cls["put-failed"] = true
		if !hit && o.Err == 0 {
			return fmt.Errorf("failed: %v", e)
		}
		switch {
		case ok && same(got, data) && hit && o.Err == 0: // arrived, but the answer was lost
			model[key] = data
		case ok != had || ok && !same(got, old):
			return fmt.Errorf("failed (%v) and left %d bytes (%v) of %d, before %d (%v)", e, len(got), ok, o.Size, len(old), had)
		}
		return nil
	case "get":
		rc, e := b.Get(ctx, key)
		var got []byte
		if e == nil {
			got, e = io.ReadAll(rc)
			_ = rc.Close()
		}
		cancel()
		s.Mu.Lock()
		defer s.Mu.Unlock()
		hit := len(s.Hits) > 0
		if hit {
			cls["fault"] = true
		}
		want, ok := model[key]
		if e != nil {
			cls["get-failed"] = true
			if ok && !hit {
				return fmt.Errorf("failed: %v", e)
			}
			return nil
		}
		if !ok {
			return fmt.Errorf("a missing object was fetched (%d bytes)", len(got))
		}
		if !same(got, want) {
			return fmt.Errorf("fetched %d bytes without an error, want %d", len(got), len(want))
		}
		cls["get"] = true
	case "list":
		pre := prefixes[o.Key%len(prefixes)]
		got, e := b.List(ctx, pre)
		cancel()
		s.Mu.Lock()
		defer s.Mu.Unlock()
		hit := len(s.Hits) > 0
		if hit {
			cls["fault"] = true
		}
		if e != nil {
			if !hit {
				return fmt.Errorf("failed: %v", e)
			}
			cls["list-failed"] = true
			return nil
		}
		var want []string
		for k := range model {
			if strings.HasPrefix(k, pre) {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		got = append([]string(nil), got...)
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("listing of %q returned %d keys %.200q, want %d keys %.200q", pre, len(got), fmt.Sprint(got), len(want), fmt.Sprint(want))
		}
		cls["list"] = true
		if s.Reqs-len(s.Hits) > 1 {
			cls["pages"] = true
		}
	}
	return nil
}

func TestB04(t *testing.T) { vt.Run(t, "B04", genPlan, run) }

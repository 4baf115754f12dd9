package bk

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	backupcmd "github.com/cybozu-go/moco/cmd/moco-backup/cmd"
	"github.com/go-sql-driver/mysql"

	"verif/internal/objstore"
	"verif/internal/vt"
)

// TestChild is not a test: it runs the moco-backup command for runCmd, which starts this binary again.
func TestChild(t *testing.T) {
	if os.Getenv("VERIF_CHILD") == "" {
		t.Skip()
	}
	var args []string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD")), &args); err != nil {
		os.Exit(98)
	}
	now, _ := strconv.ParseInt(os.Getenv("VERIF_NOW"), 10, 64)
	time.AfterFunc(100*time.Second, func() { os.Exit(97) })
	var d net.Dialer
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		c, err := d.DialContext(ctx, "unix", os.Getenv("VERIF_SQL"))
		if err != nil {
			return nil, err
		}
		if _, err := fmt.Fprintf(c, "%s\n", addr); err != nil {
			return nil, err
		}
		b := make([]byte, 1)
		if _, err := io.ReadFull(c, b); err != nil {
			_ = c.Close()
			return nil, fmt.Errorf("dial tcp %s: connection refused", addr)
		}
		return c, nil
	})
	tr := http.DefaultTransport.(*http.Transport)
	tr.DisableKeepAlives = true
	dial := tr.DialContext
	tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		if strings.HasPrefix(addr, "api.invalid:") {
			return d.DialContext(ctx, "unix", os.Getenv("VERIF_API"))
		}
		return dial(ctx, network, addr)
	}
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Unix(0, now).Sub(time.Now()))
		os.Args = append([]string{"moco-backup"}, args...)
		backupcmd.Execute()
		os.Exit(0)
	})
}

// runCmd runs a moco-backup command line in a child process against the world.
func (w *W) runCmd(backend, password string, args ...string) error {
	dir := w.workDir()
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "work")
	must(os.Mkdir(work, 0o755))
	must(os.WriteFile(filepath.Join(dir, "kubeconfig"), []byte(`{"apiVersion":"v1","kind":"Config","current-context":"c","contexts":[{"name":"c","context":{"cluster":"k","user":"u"}}],
"clusters":[{"name":"k","cluster":{"server":"http://api.invalid"}}],"users":[{"name":"u","user":{}}]}`), 0o644))
	sock := func(n string) (net.Listener, string) {
		f := filepath.Join(dir, n)
		l, err := net.Listen("unix", f)
		must(err)
		return l, f
	}
	apiL, apiF := sock("api")
	sqlL, sqlF := sock("sql")
	stL, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	store := objstore.New(backend, "bkt", 2)
	if backend == "azure" {
		store.Bucket = "acct/bkt"
	}
	store.Objects = w.Objects
	w.Mu.Lock()
	if w.F != nil && w.F.Site == "store" {
		store.F = &objstore.Fault{At: w.F.At, N: 1, Mode: w.F.Mode}
		if w.F.Mode == "403" {
			store.F.N = -1
		}
	}
	w.Mu.Unlock()
	var wg sync.WaitGroup
	api := &http.Server{Handler: w.API}
	st := &http.Server{Handler: store}
	wg.Add(3)
	go func() { defer wg.Done(); _ = api.Serve(apiL) }()
	go func() { defer wg.Done(); _ = st.Serve(stL) }()
	var mu sync.Mutex
	var conns []net.Conn
	go func() {
		defer wg.Done()
		for {
			c, err := sqlL.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns = append(conns, c)
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer c.Close()
				var addr []byte
				b := make([]byte, 1)
				for {
					if _, err := io.ReadFull(c, b); err != nil {
						return
					}
					if b[0] == '\n' {
						break
					}
					addr = append(addr, b[0])
				}
				s, err := w.Net.Dial(context.Background(), string(addr))
				if err != nil {
					return
				}
				if _, err := c.Write([]byte("+")); err != nil {
					_ = s.Close()
					return
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, _ = io.Copy(s, c)
					_ = s.Close()
				}()
				_, _ = io.Copy(c, s)
				_ = s.Close()
			}()
		}
	}()
	ep := "http://" + stL.Addr().String()
	env := []string{"VERIF_API=" + apiF, "VERIF_SQL=" + sqlF, "VERIF_NOW=" + strconv.FormatInt(time.Now().UnixNano(), 10), "MYSQL_PASSWORD=" + password, "KUBECONFIG=" + filepath.Join(dir, "kubeconfig"),
		"AWS_EC2_METADATA_DISABLED=true", "AWS_CONFIG_FILE=/dev/null", "AWS_SHARED_CREDENTIALS_FILE=/dev/null", "AWS_ACCESS_KEY_ID=k", "AWS_SECRET_ACCESS_KEY=s", "HOME=" + dir, "NO_PROXY=*"}
	args = append([]string{args[0], "--work-dir=" + work, "--backend-type=" + backend}, args[1:]...)
	switch backend {
	case "s3":
		args = append(args, "--region=us-east-1", "--endpoint="+ep, "--use-path-style")
	case "gcs":
		env = append(env, "STORAGE_EMULATOR_HOST="+stL.Addr().String())
	case "azure":
		env = append(env, "AZURE_STORAGE_CONNECTION_STRING=DefaultEndpointsProtocol=http;AccountName=acct;AccountKey=Zm9vYmFy;BlobEndpoint="+ep+"/acct;")
	}
	cj, _ := json.Marshal(args)
	env = append(env, "VERIF_CHILD="+string(cj))
	cmd := exec.Command(os.Args[0], "-test.run=^TestChild$")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_REPLAY=") && !strings.HasPrefix(e, "HTTP") && !strings.HasPrefix(e, "http") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	_ = api.Close()
	_ = st.Close()
	_ = sqlL.Close()
	mu.Lock()
	for _, c := range conns {
		_ = c.Close()
	}
	mu.Unlock()
	wg.Wait()
	if len(store.Hits) > 0 {
		w.HitF = &Hit{Site: "store", What: store.Hits[0]}
	}
	if len(store.Bad) > 0 {
		w.Stray = append(w.Stray, "store: "+store.Bad[0])
	}
	if err == nil {
		return nil
	}
	if len(out) > 3000 {
		out = out[len(out)-3000:]
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 {
		return fmt.Errorf("exit status 1: %s", out)
	}
	return fmt.Errorf("%w: child: %v\n%s", vt.ErrInconclusive, err, out)
}

// Package objstore has in-process servers for the object storage protocols the bucket backends speak.
package objstore

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Fault makes requests fail.
type Fault struct {
	At   int    `json:"at"`   // number of the first failing request (1-based)
	N    int    `json:"n"`    // how many requests fail from there on; negative for all
	Mode string `json:"mode"` // error codes: 403 500 503 (before the effect), a403 a500 a503 (after), drop, adrop, trunc
}

// Store is a bucket server.
type Store struct {
	Mu      sync.Mutex
	Bucket  string
	Objects map[string][]byte
	Types   map[string]string
	Page    int
	F       *Fault
	Reqs    int
	Hits    []string
	Log     []string
	Bad     []string // requests not understood
	ups     map[string]map[string][]byte
	keys    map[string]string
	seq     int
	// Serve handles one request; set by S3, GCS or Azure.
	kind string
}

// New makes an empty store of a kind: s3, gcs or azure.
func New(kind, bucket string, page int) *Store {
	return &Store{kind: kind, Bucket: bucket, Page: page, Objects: map[string][]byte{}, Types: map[string]string{}, ups: map[string]map[string][]byte{}, keys: map[string]string{}}
}

type reply struct {
	code int
	h    map[string]string
	body []byte
	head bool
}

func (s *Store) bad(r *http.Request) reply {
	s.Bad = append(s.Bad, r.Method+" "+r.URL.String())
	return reply{code: 400, body: []byte("not understood by the stand-in")}
}

// ErrDropped is what a client sees of a broken connection.
var ErrDropped = errors.New("write tcp: connection reset by peer")

type truncated struct{ r io.Reader }

func (t truncated) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// Do answers one request.
func (s *Store) Do(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		_ = r.Body.Close()
		if err != nil {
			return nil, err // the request was never complete
		}
		body = b
		if r.ContentLength > 0 && int64(len(body)) != r.ContentLength {
			return nil, fmt.Errorf("http: ContentLength=%d with Body length %d", r.ContentLength, len(body))
		}
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	ch := http.Header{} // as seen by a server
	for k, v := range r.Header {
		for _, x := range v {
			ch.Add(k, x)
		}
	}
	r = r.Clone(r.Context())
	r.Header = ch
	s.Mu.Lock()
	defer s.Mu.Unlock()
	s.Reqs++
	mode := ""
	if f := s.F; f != nil && s.Reqs >= f.At && (f.N < 0 || s.Reqs < f.At+f.N) {
		mode = f.Mode
		s.Hits = append(s.Hits, r.Method+" "+r.URL.String())
	}
	if len(s.Log) < 200 {
		s.Log = append(s.Log, r.Method+" "+r.URL.String()+" "+mode)
	}
	var rep reply
	switch mode {
	case "drop":
		return nil, ErrDropped
	case "403", "500", "503":
		rep = s.failure(mode)
	default:
		rep = s.serve(r, body)
		switch mode {
		case "adrop":
			return nil, ErrDropped
		case "a403", "a500", "a503":
			rep = s.failure(mode[1:])
		}
	}
	h := http.Header{}
	for k, v := range rep.h {
		h.Set(k, v)
	}
	h.Set("Date", time.Now().UTC().Format(http.TimeFormat))
	if h.Get("Content-Length") == "" {
		h.Set("Content-Length", strconv.Itoa(len(rep.body)))
	}
	n, _ := strconv.ParseInt(h.Get("Content-Length"), 10, 64)
	var rd io.Reader = bytes.NewReader(rep.body)
	if mode == "trunc" {
		rd = truncated{bytes.NewReader(rep.body[:len(rep.body)/2])}
	}
	return &http.Response{StatusCode: rep.code, Status: strconv.Itoa(rep.code) + " " + http.StatusText(rep.code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: io.NopCloser(rd), ContentLength: n, Request: r}, nil
}

// RoundTrip implements http.RoundTripper.
func (s *Store) RoundTrip(r *http.Request) (*http.Response, error) { return s.Do(r) }

// ServeHTTP answers over a real connection, which is closed afterwards.
func (s *Store) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Connection", "close")
	r.URL.Host, r.URL.Scheme = r.Host, "http"
	resp, err := s.Do(r)
	if err != nil {
		panic(http.ErrAbortHandler)
	}
	for k, v := range resp.Header {
		w.Header()[k] = v
	}
	w.WriteHeader(resp.StatusCode)
	if _, err := io.Copy(w, resp.Body); err != nil {
		panic(http.ErrAbortHandler)
	}
}

func (s *Store) failure(code string) reply {
	c, _ := strconv.Atoi(code)
	name := map[int]string{403: "AccessDenied", 500: "InternalError", 503: "ServiceUnavailable"}[c]
	switch s.kind {
	case "gcs":
		return reply{code: c, body: []byte(fmt.Sprintf(`{"error":{"code":%d,"message":%q}}`, c, name)), h: map[string]string{"Content-Type": "application/json"}}
	case "azure":
		n := map[int]string{403: "AuthorizationFailure", 500: "InternalError", 503: "ServerBusy"}[c]
		return reply{code: c, body: []byte("<?xml version=\"1.0\"?><Error><Code>" + n + "</Code><Message>injected</Message></Error>"), h: map[string]string{"x-ms-error-code": n, "Content-Type": "application/xml"}}
	}
	return reply{code: c, body: []byte("<?xml version=\"1.0\"?><Error><Code>" + name + "</Code><Message>injected</Message></Error>"), h: map[string]string{"Content-Type": "application/xml"}}
}

func (s *Store) serve(r *http.Request, body []byte) reply {
	switch s.kind {
	case "gcs":
		return s.gcs(r, body)
	case "azure":
		return s.azure(r, body)
	}
	return s.s3(r, body)
}

// put stores an object; the server keeps a copy.
func (s *Store) put(key, ct string, b []byte) {
	s.Objects[key] = append([]byte{}, b...)
	s.Types[key] = ct
}

// page lists one page of keys and common prefixes after a marker.
func (s *Store) page(prefix, delim, after string, max int) (keys, prefixes []string, next string) {
	if s.Page > 0 && (max <= 0 || max > s.Page) {
		max = s.Page
	}
	if max <= 0 {
		max = 1000
	}
	var all []string
	for k := range s.Objects {
		if strings.HasPrefix(k, prefix) {
			all = append(all, k)
		}
	}
	sort.Strings(all)
	seen := map[string]bool{}
	for _, k := range all {
		item := k
		isP := false
		if delim != "" {
			if i := strings.Index(k[len(prefix):], delim); i >= 0 {
				item, isP = k[:len(prefix)+i+len(delim)], true
			}
		}
		if item <= after || seen[item] {
			continue
		}
		if len(keys)+len(prefixes) == max {
			last := ""
			if len(keys) > 0 {
				last = keys[len(keys)-1]
			}
			if len(prefixes) > 0 && prefixes[len(prefixes)-1] > last {
				last = prefixes[len(prefixes)-1]
			}
			return keys, prefixes, last
		}
		seen[item] = true
		if isP {
			prefixes = append(prefixes, item)
		} else {
			keys = append(keys, item)
		}
	}
	return keys, prefixes, ""
}

func esc(s string) string {
	var b bytes.Buffer
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (s *Store) newUpload(key string) string {
	s.seq++
	id := fmt.Sprintf("upload-%d", s.seq)
	s.ups[id] = map[string][]byte{}
	s.keys[id] = key
	return id
}

// object key of a path-style request.
func (s *Store) objKey(u *url.URL) (string, bool) {
	p := strings.TrimPrefix(u.Path, "/")
	if p == s.Bucket || p == s.Bucket+"/" {
		return "", true
	}
	if !strings.HasPrefix(p, s.Bucket+"/") {
		return "", false
	}
	return p[len(s.Bucket)+1:], true
}

// Sub tells how many uploads are unfinished.
func (s *Store) Sub() int { return len(s.ups) }

// ---- S3 ----

func unchunk(r *http.Request, b []byte) ([]byte, error) {
	if !strings.HasPrefix(r.Header.Get("X-Amz-Content-Sha256"), "STREAMING") {
		return b, nil
	}
	var out []byte
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return nil, errors.New("bad chunk")
		}
		h, _, _ := strings.Cut(string(b[:i]), ";")
		n, err := strconv.ParseInt(h, 16, 64)
		if err != nil || int64(len(b)-i-2) < n {
			return nil, errors.New("bad chunk")
		}
		b = b[i+2:]
		if n == 0 {
			return out, nil
		}
		out = append(out, b[:n]...)
		b = bytes.TrimPrefix(b[n:], []byte("\r\n"))
	}
}

func (s *Store) s3(r *http.Request, body []byte) reply {
	x := map[string]string{"Content-Type": "application/xml"}
	e := func(code int, c string) reply {
		return reply{code: code, h: x, body: []byte("<?xml version=\"1.0\"?><Error><Code>" + c + "</Code><Message>no</Message></Error>")}
	}
	key, ok := s.objKey(r.URL)
	if !ok {
		return e(404, "NoSuchBucket")
	}
	q := r.URL.Query()
	etag := func(b []byte) string { return fmt.Sprintf("\"%x\"", md5.Sum(b)) }
	id := q.Get("uploadId")
	switch {
	case r.Method == "GET" && key == "":
		max, _ := strconv.Atoi(q.Get("max-keys"))
		after := q.Get("continuation-token")
		if after == "" {
			after = q.Get("start-after")
			if q.Get("list-type") != "2" {
				after = q.Get("marker")
			}
		}
		keys, pre, next := s.page(q.Get("prefix"), q.Get("delimiter"), after, max)
		enc := esc
		if q.Get("encoding-type") == "url" {
			enc = func(k string) string { return esc(url.QueryEscape(k)) }
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "<?xml version=\"1.0\"?><ListBucketResult><Name>%s</Name><Prefix>%s</Prefix><KeyCount>%d</KeyCount><MaxKeys>1000</MaxKeys><IsTruncated>%v</IsTruncated>", esc(s.Bucket), enc(q.Get("prefix")), len(keys), next != "")
		if next != "" {
			if q.Get("list-type") == "2" {
				fmt.Fprintf(&b, "<NextContinuationToken>%s</NextContinuationToken>", esc(next))
			} else if q.Get("delimiter") != "" {
				fmt.Fprintf(&b, "<NextMarker>%s</NextMarker>", esc(next))
			}
		}
		for _, k := range keys {
			fmt.Fprintf(&b, "<Contents><Key>%s</Key><Size>%d</Size><ETag>%s</ETag><LastModified>2024-01-01T00:00:00.000Z</LastModified><StorageClass>STANDARD</StorageClass></Contents>", enc(k), len(s.Objects[k]), esc(etag(nil)))
		}
		for _, k := range pre {
			fmt.Fprintf(&b, "<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>", enc(k))
		}
		b.WriteString("</ListBucketResult>")
		return reply{code: 200, h: x, body: b.Bytes()}
	case r.Method == "GET" || r.Method == "HEAD":
		b, ok := s.Objects[key]
		if !ok {
			return e(404, "NoSuchKey")
		}
		h := map[string]string{"Content-Type": s.Types[key], "ETag": etag(b), "Last-Modified": "Mon, 01 Jan 2024 00:00:00 GMT", "Accept-Ranges": "bytes"}
		if rg := r.Header.Get("Range"); rg != "" {
			return ranged(rg, b, h)
		}
		if r.Method == "HEAD" {
			h["Content-Length"] = strconv.Itoa(len(b))
			b = nil
		}
		return reply{code: 200, h: h, body: b}
	case r.Method == "POST" && q.Has("uploads"):
		id := s.newUpload(key)
		s.Types[key+"\x00"+id] = r.Header.Get("Content-Type")
		return reply{code: 200, h: x, body: []byte("<?xml version=\"1.0\"?><InitiateMultipartUploadResult><Bucket>" + esc(s.Bucket) + "</Bucket><Key>" + esc(key) + "</Key><UploadId>" + id + "</UploadId></InitiateMultipartUploadResult>")}
	case r.Method == "PUT" && id != "":
		u, ok := s.ups[id]
		if !ok || s.keys[id] != key {
			return e(404, "NoSuchUpload")
		}
		b, err := unchunk(r, body)
		n, err2 := strconv.Atoi(q.Get("partNumber"))
		if err != nil || err2 != nil || n < 1 || n > 10000 {
			return e(400, "InvalidArgument")
		}
		u[strconv.Itoa(n)] = b
		return reply{code: 200, h: map[string]string{"ETag": etag(b)}}
	case r.Method == "POST" && id != "":
		u, ok := s.ups[id]
		if !ok || s.keys[id] != key {
			return e(404, "NoSuchUpload")
		}
		var c struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if xml.Unmarshal(body, &c) != nil || len(c.Part) == 0 {
			return e(400, "MalformedXML")
		}
		var all []byte
		last := 0
		for i, p := range c.Part {
			b, ok := u[strconv.Itoa(p.PartNumber)]
			if !ok || strings.Trim(p.ETag, "\"") != strings.Trim(etag(b), "\"") {
				return e(400, "InvalidPart")
			}
			if p.PartNumber <= last {
				return e(400, "InvalidPartOrder")
			}
			if i < len(c.Part)-1 && len(b) < 5<<20 {
				return e(400, "EntityTooSmall")
			}
			last = p.PartNumber
			all = append(all, b...)
		}
		s.put(key, s.Types[key+"\x00"+id], all)
		delete(s.ups, id)
		return reply{code: 200, h: x, body: []byte("<?xml version=\"1.0\"?><CompleteMultipartUploadResult><Bucket>" + esc(s.Bucket) + "</Bucket><Key>" + esc(key) + "</Key><ETag>" + esc(etag(all)) + "</ETag></CompleteMultipartUploadResult>")}
	case r.Method == "DELETE" && id != "":
		delete(s.ups, id)
		return reply{code: 204}
	case r.Method == "PUT":
		b, err := unchunk(r, body)
		if err != nil {
			return e(400, "IncompleteBody")
		}
		s.put(key, r.Header.Get("Content-Type"), b)
		return reply{code: 200, h: map[string]string{"ETag": etag(b)}}
	}
	return s.bad(r)
}

func ranged(rg string, b []byte, h map[string]string) reply {
	var from, to int
	if n, _ := fmt.Sscanf(rg, "bytes=%d-%d", &from, &to); n < 2 {
		to = len(b) - 1
		if _, err := fmt.Sscanf(rg, "bytes=%d-", &from); err != nil {
			return reply{code: 416}
		}
	}
	if from >= len(b) || from > to {
		return reply{code: 416, h: map[string]string{"Content-Range": fmt.Sprintf("bytes */%d", len(b))}}
	}
	to = min(to, len(b)-1)
	h["Content-Range"] = fmt.Sprintf("bytes %d-%d/%d", from, to, len(b))
	return reply{code: 206, h: h, body: b[from : to+1]}
}

// ---- GCS ----

func crc(b []byte) string {
	var s [4]byte
	binary.BigEndian.PutUint32(s[:], crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)))
	return base64.StdEncoding.EncodeToString(s[:])
}

func (s *Store) gcsObj(key string) map[string]any {
	b := s.Objects[key]
	m := md5.Sum(b)
	return map[string]any{"kind": "storage#object", "id": s.Bucket + "/" + key + "/1", "name": key, "bucket": s.Bucket, "size": strconv.Itoa(len(b)), "generation": "1", "metageneration": "1",
		"crc32c": crc(b), "md5Hash": base64.StdEncoding.EncodeToString(m[:]), "contentType": s.Types[key], "updated": "2024-01-01T00:00:00.000Z", "timeCreated": "2024-01-01T00:00:00.000Z"}
}

func (s *Store) gcs(r *http.Request, body []byte) reply {
	jh := map[string]string{"Content-Type": "application/json; charset=UTF-8"}
	js := func(code int, v any) reply {
		b, _ := json.Marshal(v)
		return reply{code: code, h: jh, body: b}
	}
	e := func(code int, m string) reply {
		return js(code, map[string]any{"error": map[string]any{"code": code, "message": m, "errors": []any{map[string]any{"reason": m, "message": m}}}})
	}
	q := r.URL.Query()
	p := r.URL.Path
	base := "/storage/v1/b/" + s.Bucket + "/o"
	switch {
	case strings.HasSuffix(p, "/upload"+base) || p == base && q.Get("uploadType") != "" || q.Get("upload_id") != "":
		if id := q.Get("upload_id"); id != "" {
			u, ok := s.ups[id]
			if !ok {
				return e(404, "no such upload")
			}
			if r.Method == "DELETE" {
				delete(s.ups, id)
				return reply{code: 499}
			}
			cr := strings.TrimPrefix(r.Header.Get("Content-Range"), "bytes ")
			rg, total, _ := strings.Cut(cr, "/")
			cur := u["data"]
			if rg != "*" && rg != "" {
				var from, to int
				if n, _ := fmt.Sscanf(rg, "%d-%d", &from, &to); n != 2 || to-from+1 != len(body) || from > len(cur) {
					return e(400, "bad content range "+cr)
				}
				cur = append(append([]byte{}, cur[:from]...), body...)
				if total == "*" && len(cur)%(256<<10) != 0 {
					return e(400, "chunk is not a multiple of 256 KiB")
				}
				u["data"] = cur
			}
			if n, err := strconv.Atoi(total); err == nil && n == len(cur) {
				key := s.keys[id]
				s.put(key, "", cur)
				delete(s.ups, id)
				return js(200, s.gcsObj(key))
			}
			h := map[string]string{}
			if len(cur) > 0 {
				h["Range"] = fmt.Sprintf("bytes=0-%d", len(cur)-1)
			}
			if r.Header.Get("X-GUploader-No-308") == "yes" {
				h["X-Http-Status-Code-Override"] = "308"
				return reply{code: 200, h: h}
			}
			return reply{code: 308, h: h}
		}
		var meta struct{ Name, ContentType string }
		switch q.Get("uploadType") {
		case "multipart":
			_, params, err := mime.ParseMediaType(r.Header.Get("Content-Type"))
			if err != nil {
				return e(400, "bad content type")
			}
			mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
			p1, err := mr.NextPart()
			if err != nil || json.NewDecoder(p1).Decode(&meta) != nil {
				return e(400, "bad metadata")
			}
			p2, err := mr.NextPart()
			if err != nil {
				return e(400, "no media")
			}
			b, err := io.ReadAll(p2)
			if err != nil {
				return e(400, "incomplete media")
			}
			if _, err := mr.NextPart(); err != io.EOF {
				return e(400, "incomplete media")
			}
			if n := q.Get("name"); n != "" {
				meta.Name = n
			}
			s.put(meta.Name, meta.ContentType, b)
			return js(200, s.gcsObj(meta.Name))
		case "resumable":
			_ = json.Unmarshal(body, &meta)
			if n := q.Get("name"); n != "" {
				meta.Name = n
			}
			id := s.newUpload(meta.Name)
			return reply{code: 200, h: map[string]string{"Location": r.URL.Scheme + "://" + r.URL.Host + "/upload" + base + "?uploadType=resumable&upload_id=" + id}}
		case "media":
			s.put(q.Get("name"), r.Header.Get("Content-Type"), body)
			return js(200, s.gcsObj(q.Get("name")))
		}
		return s.bad(r)
	case p == base && r.Method == "GET":
		max, _ := strconv.Atoi(q.Get("maxResults"))
		keys, pre, next := s.page(q.Get("prefix"), q.Get("delimiter"), q.Get("pageToken"), max)
		items := []any{}
		for _, k := range keys {
			items = append(items, s.gcsObj(k))
		}
		o := map[string]any{"kind": "storage#objects", "items": items}
		if len(pre) > 0 {
			o["prefixes"] = pre
		}
		if next != "" {
			o["nextPageToken"] = next
		}
		return js(200, o)
	}
	key, ok := s.objKey(r.URL)
	media := ok && key != ""
	if strings.HasPrefix(p, base+"/") {
		key = p[len(base)+1:]
		if d, err := url.PathUnescape(strings.TrimPrefix(r.URL.EscapedPath(), base+"/")); err == nil {
			key = d
		}
		ok = true
		media = q.Get("alt") == "media"
	}
	if !ok || r.Method != "GET" && r.Method != "HEAD" {
		return s.bad(r)
	}
	b, found := s.Objects[key]
	if !found {
		return e(404, "notFound")
	}
	if !media {
		return js(200, s.gcsObj(key))
	}
	m := md5.Sum(b)
	h := map[string]string{"Content-Type": s.Types[key], "X-Goog-Generation": "1", "X-Goog-Metageneration": "1", "X-Goog-Stored-Content-Length": strconv.Itoa(len(b)), "X-Goog-Stored-Content-Encoding": "identity",
		"X-Goog-Hash": "crc32c=" + crc(b) + ",md5=" + base64.StdEncoding.EncodeToString(m[:]), "Last-Modified": "Mon, 01 Jan 2024 00:00:00 GMT"}
	if rg := r.Header.Get("Range"); rg != "" {
		return ranged(rg, b, h)
	}
	return reply{code: 200, h: h, body: b}
}

// ---- Azure ----

func (s *Store) azure(r *http.Request, body []byte) reply {
	h := map[string]string{"x-ms-request-id": "1", "x-ms-version": "2023-11-03", "Content-Type": "application/xml"}
	e := func(code int, c string) reply {
		h["x-ms-error-code"] = c
		return reply{code: code, h: h, body: []byte("<?xml version=\"1.0\"?><Error><Code>" + c + "</Code><Message>no</Message></Error>")}
	}
	key, ok := s.objKey(r.URL)
	if !ok {
		return e(404, "ContainerNotFound")
	}
	q := r.URL.Query()
	h["ETag"], h["Last-Modified"] = "\"0x8D\"", "Mon, 01 Jan 2024 00:00:00 GMT"
	switch {
	case r.Method == "GET" && key == "" && q.Get("comp") == "list":
		max, _ := strconv.Atoi(q.Get("maxresults"))
		keys, pre, next := s.page(q.Get("prefix"), q.Get("delimiter"), q.Get("marker"), max)
		var b bytes.Buffer
		fmt.Fprintf(&b, "<?xml version=\"1.0\" encoding=\"utf-8\"?><EnumerationResults ServiceEndpoint=\"x\" ContainerName=\"%s\"><Prefix>%s</Prefix><Blobs>", esc(s.Bucket), esc(q.Get("prefix")))
		for _, k := range keys {
			fmt.Fprintf(&b, "<Blob><Name>%s</Name><Properties><Last-Modified>Mon, 01 Jan 2024 00:00:00 GMT</Last-Modified><Etag>0x8D</Etag><Content-Length>%d</Content-Length><BlobType>BlockBlob</BlobType></Properties></Blob>", esc(k), len(s.Objects[k]))
		}
		for _, k := range pre {
			fmt.Fprintf(&b, "<BlobPrefix><Name>%s</Name></BlobPrefix>", esc(k))
		}
		fmt.Fprintf(&b, "</Blobs><NextMarker>%s</NextMarker></EnumerationResults>", esc(next))
		return reply{code: 200, h: h, body: b.Bytes()}
	case key == "":
		return s.bad(r)
	case r.Method == "GET" || r.Method == "HEAD":
		b, found := s.Objects[key]
		if !found {
			return e(404, "BlobNotFound")
		}
		h["Content-Type"], h["x-ms-blob-type"] = s.Types[key], "BlockBlob"
		rg := r.Header.Get("x-ms-range")
		if rg == "" {
			rg = r.Header.Get("Range")
		}
		if rg != "" {
			return ranged(rg, b, h)
		}
		if r.Method == "HEAD" {
			h["Content-Length"] = strconv.Itoa(len(b))
			b = nil
		}
		return reply{code: 200, h: h, body: b}
	case r.Method == "PUT" && q.Get("comp") == "block":
		u := s.ups[key]
		if u == nil {
			u = map[string][]byte{}
			s.ups[key] = u
		}
		u[q.Get("blockid")] = body
		return reply{code: 201, h: h}
	case r.Method == "PUT" && q.Get("comp") == "blocklist":
		var all []byte
		d := xml.NewDecoder(bytes.NewReader(body))
		for {
			t, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				return e(400, "InvalidXmlDocument")
			}
			if st, ok := t.(xml.StartElement); ok && st.Name.Local != "BlockList" {
				var id string
				if d.DecodeElement(&id, &st) != nil {
					return e(400, "InvalidXmlDocument")
				}
				b, ok := s.ups[key][id]
				if !ok {
					return e(400, "InvalidBlockList")
				}
				all = append(all, b...)
			}
		}
		s.put(key, r.Header.Get("x-ms-blob-content-type"), all)
		delete(s.ups, key)
		return reply{code: 201, h: h}
	case r.Method == "PUT" && r.Header.Get("x-ms-blob-type") == "BlockBlob":
		s.put(key, r.Header.Get("x-ms-blob-content-type"), body)
		return reply{code: 201, h: h}
	}
	return s.bad(r)
}

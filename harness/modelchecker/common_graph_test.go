package modelchecker

import (
	"encoding/json"
	pb "fizz/proto"
	"fmt"
	proto3 "google.golang.org/protobuf/proto"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// gfiles is an exported graph, read back.
type gfiles struct {
	json  []string
	links []*pb.Link
	total int64
}

// readGraph reads the files nodes_* and adjacency_lists_* (or the given ones, in the given order).
func readGraph(nodeFiles, linkFiles []string) (*gfiles, error) {
	g := &gfiles{total: -1}
	for _, fn := range nodeFiles {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		m := &pb.Nodes{}
		if err := proto3.Unmarshal(b, m); err != nil {
			return nil, err
		}
		g.json = append(g.json, m.Json...)
	}
	for _, fn := range linkFiles {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		m := &pb.Links{}
		if err := proto3.Unmarshal(b, m); err != nil {
			return nil, err
		}
		g.links = append(g.links, m.Links...)
		g.total = m.TotalNodes
	}
	return g, nil
}

func readGraphDir(dir string) (*gfiles, error) {
	nf, _ := filepath.Glob(filepath.Join(dir, "nodes_0*.pb"))
	lf, _ := filepath.Glob(filepath.Join(dir, "adjacency_lists_0*.pb"))
	sort.Strings(nf)
	sort.Strings(lf)
	if len(nf) == 0 || len(lf) == 0 {
		return nil, fmt.Errorf("no files in %s", dir)
	}
	return readGraph(nf, lf)
}

type jnode struct {
	Name  string                 `json:"name"`
	State map[string]interface{} `json:"state"`
	Roles []struct {
		Ref    string                 `json:"ref_string"`
		Fields map[string]interface{} `json:"fields"`
	} `json:"roles"`
	Threads []interface{} `json:"threads"`
}

// label is what realLabel says of the same node.
func (j *jnode) label() string {
	val := func(v interface{}) string {
		if s, ok := v.(string); ok {
			return strings.TrimPrefix(s, "role ")
		}
		return fmt.Sprint(v)
	}
	dict := func(m map[string]interface{}) string {
		var t []string
		for k, v := range m {
			t = append(t, k+"="+val(v))
		}
		sort.Strings(t)
		return strings.Join(t, ",")
	}
	live := map[string]bool{}
	var rs []string
	var visit func(v interface{})
	visit = func(v interface{}) {
		s, ok := v.(string)
		if !ok || !strings.HasPrefix(s, "role ") || live[s] {
			return
		}
		live[s] = true
		for _, ro := range j.Roles {
			if "role "+ro.Ref == s {
				for _, w := range ro.Fields {
					visit(w)
				}
				rs = append(rs, fmt.Sprintf("%s{%s}", ro.Ref, dict(ro.Fields)))
			}
		}
	}
	for _, v := range j.State {
		visit(v)
	}
	sort.Strings(rs)
	return strings.Join(append([]string{dict(j.State)}, rs...), " ")
}

// lts reads the histories off an exported graph.
func (g *gfiles) lts() (*lts, error) {
	nodes := make([]*jnode, len(g.json))
	for i, s := range g.json {
		nodes[i] = &jnode{}
		if err := json.Unmarshal([]byte(s), nodes[i]); err != nil {
			return nil, fmt.Errorf("node %d: %v", i, err)
		}
	}
	out := make([][]*pb.Link, len(nodes))
	for _, l := range g.links {
		if l.Src < 0 || l.Dest < 0 || int(l.Src) >= len(nodes) || int(l.Dest) >= len(nodes) {
			return nil, fmt.Errorf("link %v between nodes that are not there", l)
		}
		if l.Name == "end" && l.Src == l.Dest {
			continue
		}
		out[l.Src] = append(out[l.Src], l)
	}
	l := &lts{}
	ids := map[int64]int{}
	var list []int64
	add := func(n int64) int {
		if i, ok := ids[n]; ok {
			return i
		}
		ids[n] = len(list)
		list = append(list, n)
		l.nodes = append(l.nodes, &lnode{label: nodes[n].label()})
		return len(list) - 1
	}
	var collect func(n int64, seen map[int64]bool, f func(int64))
	collect = func(n int64, seen map[int64]bool, f func(int64)) {
		if seen[n] {
			return
		}
		seen[n] = true
		if nodes[n].Name == "yield" || nodes[n].Name == "crash" {
			f(n)
			return
		}
		for _, o := range out[n] {
			collect(o.Dest, seen, f)
		}
	}
	if len(nodes) > 0 {
		collect(0, map[int64]bool{}, func(n int64) { l.init = append(l.init, add(n)) })
	}
	for i := 0; i < len(list); i++ {
		for _, o := range out[list[i]] {
			act := o.Name
			if strings.HasPrefix(act, "thread-") {
				act = ""
			}
			collect(o.Dest, map[int64]bool{}, func(t int64) { l.nodes[i].out = append(l.nodes[i].out, ledge{act, add(t)}) })
		}
		l.nodes[i].stuck = len(l.nodes[i].out) == 0
	}
	return l, nil
}

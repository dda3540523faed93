package h

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	promq "sigs.k8s.io/instrumentation-tools/cmd"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
)

// launch is how the command is started: by its Run method, or the way a shell
// does it, from an argument list and a kubeconfig file.
type launch struct {
	args []string // nil: by its Run method
	kube string   // what is wrong with the kubeconfig
}

const kubeConfig = `apiVersion: v1
kind: Config
clusters:
- name: sim
  cluster:
    server: http://kube.sim
contexts:
- name: sim
  context:
    cluster: sim
    user: ""
current-context: sim
`

var kubeKinds = []string{"missing", "malformed", "directory", "other-context", "contradictory"}

// kubeFile puts the kubeconfig next to the running binary.
func kubeFile(kind string) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p := filepath.Join(filepath.Dir(exe), "kube-"+kind)
	if _, err := os.Stat(p); err == nil || kind == "missing" {
		return p
	}
	text := kubeConfig
	switch kind {
	case "malformed":
		text = text[:len(text)/2] + "}{"
	case "directory":
		os.Mkdir(p, 0o755)
		return p
	case "contradictory":
		text = strings.Replace(text, "server: http://kube.sim", "server: https://kube.sim\n    insecure-skip-tls-verify: true\n    certificate-authority-data: bm90IGEgY2VydGlmaWNhdGU=", 1)
	case "other-context":
		text = strings.Replace(text, "current-context: sim", "current-context: gone", 1)
	}
	tmp := fmt.Sprintf("%s.%d", p, os.Getpid())
	if err := os.WriteFile(tmp, []byte(text), 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, p); err != nil {
		panic(err)
	}
	return p
}

// shell decides on an argument list that means the same as flags.
func shell(r *R, flags cli.PromQFlags, faulty bool) *launch {
	wk := r.W
	l := &launch{args: []string{}}
	var parts [][]string
	one := func(short, long, v string) {
		switch wk.Intn(4) {
		case 0:
			parts = append(parts, []string{"-" + short, v})
		case 1:
			parts = append(parts, []string{"--" + long, v})
		case 2:
			parts = append(parts, []string{"--" + long + "=" + v})
		default:
			if v == "" || v[0] == '=' {
				parts = append(parts, []string{"-" + short, v})
			} else {
				parts = append(parts, []string{"-" + short + v})
			}
		}
	}
	flag := func(short, long string) {
		parts = append(parts, []string{[]string{"-" + short, "--" + long, "--" + long + "=true"}[wk.Intn(3)]})
	}
	if flags.List {
		flag("l", "list")
	}
	if flags.Continuous {
		flag("c", "continuous")
	}
	if flags.PromQuery != "" || wk.Permille(200) {
		one("q", "query", flags.PromQuery)
	}
	if flags.Output != "json" || wk.Permille(400) {
		one("o", "output", flags.Output)
	}
	// the targets keep their order, the rest may be anywhere between them
	for i := len(parts) - 1; i > 0; i-- {
		j := wk.Intn(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	at := 0
	for _, h := range flags.HostNames {
		for at < len(parts) && wk.Permille(400) {
			l.args = append(l.args, parts[at]...)
			at++
		}
		switch wk.Intn(3) {
		case 0:
			l.args = append(l.args, "-t", h)
		case 1:
			l.args = append(l.args, "--targets="+h)
		default:
			l.args = append(l.args, "-t"+h)
		}
	}
	for ; at < len(parts); at++ {
		l.args = append(l.args, parts[at]...)
	}
	if faulty && r.F.Permille(100) {
		l.kube = kubeKinds[r.F.Intn(len(kubeKinds))]
		r.S.Fired("kubeconfig:" + l.kube)
	}
	return l
}

// run starts the command.
func (l *launch) run(r *R, net *Net, out *simOut, period, window time.Duration, flags cli.PromQFlags) error {
	if l == nil || l.args == nil {
		c := &metrics.MetricsCommand{PromQCommand: cli.PromQCommand{RestConfig: &rest.Config{Host: "http://kube.sim", Transport: net}, Streams: genericclioptions.IOStreams{Out: out}}, Period: period, Window: window}
		return c.Run(flags)
	}
	r.Probe("from-arguments")
	r.Say("arguments %q, kubeconfig %q", l.args, l.kube)
	// what an HTTP client for a plain kubeconfig ends up using
	http.DefaultTransport = net
	kind := l.kube
	if kind == "" {
		kind = "fine"
	}
	os.Setenv("KUBECONFIG", kubeFile(kind))
	var other strings.Builder
	root := promq.NewCmdPromQ(genericclioptions.IOStreams{In: strings.NewReader(""), Out: out, ErrOut: &other})
	root.SetArgs(l.args)
	root.SetOut(&other)
	root.SetErr(&other)
	err := root.Execute()
	if err != nil && !strings.Contains(other.String(), err.Error()) {
		r.Fail("P13", "error-not-reported", "the command failed with %v but says only %q", err, trunc(other.String(), 200))
	}
	if err == nil && other.Len() > 0 && !flags.Continuous {
		r.Fail("P13", "other-output", "the command succeeded but says %q", trunc(other.String(), 200))
	}
	return err
}

id="p21-pcp-dir-ignored"; prop="P21"
needs="PCP_DIR set, PCP_CONF not set"
breaks="The configuration below the PCP root is not looked at, so the file goes to the system temporary directory although the configuration can be read."
edits=[("config.go","""		c = filepath.Join(rootPath, "etc", "pcp.conf")
""","""		c = filepath.Join("/", "etc", "pcp.conf")
""")]
env=['PCP_DIR="$S/pcp"; unset PCP_CONF; mkdir -p "$S/pcp/etc"; echo PCP_TMP_DIR=/var/tmp > "$S/pcp/etc/pcp.conf"']
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	defer c.MustStop()
	if _, err := os.Stat(filepath.Join(os.Getenv("PCP_DIR"), "var", "tmp", "mmv", "demo")); err != nil {
		t.Fatal(err)
	}
}
'''

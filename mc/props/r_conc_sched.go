//go:build sched

package props

import "github.com/bluenviron/mediacommon/v2/pkg/vsched"

func init() {
	schedRun = vsched.Run
	schedRestore = vsched.Restore
	schedInfo = func() (int, int, int64, string) {
		return vsched.Statements, len(vsched.Globals), vsched.Points, vsched.Disabled
	}
}

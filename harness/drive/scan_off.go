//go:build noscan

package drive

const ScanOn = false

func (r *rec) scan(src string)     {}
func (r *rec) scanOnly(src string) {}

package database

import "sync"

// ZZSetInstance makes the process-wide connection singleton the harness's.
func ZZSetInstance(d *Datasource) {
	once = sync.Once{}
	once.Do(func() {})
	instance = d
}

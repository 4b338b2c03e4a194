// Replacement of sync/pool.go used only in the simulation build: a pool that
// never keeps anything, so that no hidden happens-before edge and no
// dependence on the garbage collector enters a run.
package sync

// A Pool is a set of temporary objects.
type Pool struct {
	noCopy noCopy

	New func() any
}

// Put drops x.
func (p *Pool) Put(x any) {}

// Get makes a new object.
func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func poolCleanup() {}

package pod

import "github.com/fairdatasociety/fairOS-dfs/pkg/collection"

type Info struct {
	name string
	kv   *collection.KeyValue
	doc  *collection.Document
}

func NewInfo(name string, kv *collection.KeyValue, doc *collection.Document) *Info {
	return &Info{name, kv, doc}
}
func (i *Info) GetPodName() string                { return i.name }
func (i *Info) GetPodPassword() string            { return "pw-" + i.name }
func (i *Info) GetKVStore() *collection.KeyValue  { return i.kv }
func (i *Info) GetDocStore() *collection.Document { return i.doc }

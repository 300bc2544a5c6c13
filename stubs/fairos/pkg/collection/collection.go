// Package collection is an in-memory stand-in for fairOS-dfs's key/value and
// document stores, with the same observable contract for the calls FaVe makes
// and an injectable fault point before every storage operation.
package collection

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var (
	ErrEmptyIndex                     = errors.New("empty Index")
	ErrEntryNotFound                  = errors.New("entry not found")
	ErrNoNextElement                  = errors.New("no next element")
	ErrNoManifestFound                = errors.New("no Manifest found")
	ErrIndexAlreadyPresent            = errors.New("index already present")
	ErrIndexNotPresent                = errors.New("index not present")
	ErrIndexNotSupported              = errors.New("index not supported")
	ErrInvalidIndexType               = errors.New("invalid index type")
	ErrKvTableAlreadyPresent          = errors.New("kv table already present")
	ErrKVTableNotPresent              = errors.New("kv table not present")
	ErrKVTableNotOpened               = errors.New("kv table not opened")
	ErrKVInvalidIndexType             = errors.New("kv invalid index type")
	ErrKVKeyNotANumber                = errors.New("kv key not a number")
	ErrDocumentDBAlreadyPresent       = errors.New("document db already present")
	ErrDocumentDBNotPresent           = errors.New("document db  not present")
	ErrDocumentDBNotOpened            = errors.New("document db not opened")
	ErrDocumentDBAlreadyOpened        = errors.New("document db already opened")
	ErrDocumentDBIndexFieldNotPresent = errors.New("document db index field not present")
	ErrInvalidOperator                = errors.New("invalid operator")
	ErrDocumentNotPresent             = errors.New("document not present")
	ErrInvalidDocumentId              = errors.New("invalid document id")
	ErrReadOnlyIndex                  = errors.New("read only index")
)

type IndexType int

const (
	InvalidIndex IndexType = iota
	BytesIndex
	StringIndex
	NumberIndex
	MapIndex
	ListIndex
	VectorIndex
)

const DefaultIndexFieldName = "id"

func (e IndexType) String() string {
	switch e {
	case BytesIndex:
		return "BytesIndex"
	case StringIndex:
		return "StringIndex"
	case NumberIndex:
		return "NumberIndex"
	case MapIndex:
		return "MapIndex"
	case ListIndex:
		return "ListIndex"
	case VectorIndex:
		return "VectorIndex"
	default:
		return "InvalidIndex"
	}
}

// Fault, when set, runs before every storage operation; an error it returns is
// returned by the operation, which then has no effect.
var Fault func(op, name, key string) error

// Jitter, when set, runs at every storage operation.
var Jitter func()

// Ops counts storage operations that changed something, by kind.
func fault(op, name, key string) error {
	if Jitter != nil {
		Jitter()
	}
	if Fault != nil {
		return Fault(op, name, key)
	}
	return nil
}

// Storage is what survives a restart.
type Storage struct {
	mu   sync.Mutex
	KV   map[string]map[string][]byte
	Docs map[string]*DocTable
}

type DocTable struct {
	Schema DBSchema
	Rows   []Row
}

type Row struct {
	ID    string
	Data  []byte
	Field map[string]string
}

func NewStorage() *Storage {
	return &Storage{KV: map[string]map[string][]byte{}, Docs: map[string]*DocTable{}}
}

type TableKeyCount struct {
	Count     uint64 `json:"count"`
	TableName string `json:"tableName"`
}

type KeyValue struct {
	st   *Storage
	open map[string]bool
}

func NewKV(st *Storage) *KeyValue { return &KeyValue{st: st, open: map[string]bool{}} }

func (kv *KeyValue) CreateKVTable(name, encryptionPassword string, indexType IndexType) error {
	if err := fault("kvcreate", name, ""); err != nil {
		return err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if _, ok := kv.st.KV[name]; ok {
		return ErrKvTableAlreadyPresent
	}
	kv.st.KV[name] = map[string][]byte{}
	return nil
}

func (kv *KeyValue) DeleteKVTable(name, encryptionPassword string) error {
	if err := fault("kvdrop", name, ""); err != nil {
		return err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if _, ok := kv.st.KV[name]; !ok {
		return ErrKVTableNotPresent
	}
	delete(kv.st.KV, name)
	delete(kv.open, name)
	return nil
}

func (kv *KeyValue) OpenKVTable(name, encryptionPassword string) error {
	if err := fault("kvopen", name, ""); err != nil {
		return err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if _, ok := kv.st.KV[name]; !ok {
		return ErrKVTableNotPresent
	}
	kv.open[name] = true
	return nil
}

func (kv *KeyValue) KVCount(name string) (*TableKeyCount, error) {
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if !kv.open[name] {
		return nil, ErrKVTableNotOpened
	}
	return &TableKeyCount{Count: uint64(len(kv.st.KV[name])), TableName: name}, nil
}

func (kv *KeyValue) IsEmpty(name string) (bool, error) {
	if err := fault("kvempty", name, ""); err != nil {
		return true, err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if !kv.open[name] {
		return false, ErrKVTableNotOpened
	}
	return len(kv.st.KV[name]) == 0, nil
}

func (kv *KeyValue) KVPut(name, key string, value []byte) error {
	if err := fault("kvput", name, key); err != nil {
		return err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if !kv.open[name] {
		return ErrKVTableNotOpened
	}
	kv.st.KV[name][key] = append([]byte(nil), value...)
	return nil
}

func (kv *KeyValue) KVGet(name, key string) ([]string, []byte, error) {
	if err := fault("kvget", name, key); err != nil {
		return nil, nil, err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if !kv.open[name] {
		return nil, nil, ErrKVTableNotOpened
	}
	v, ok := kv.st.KV[name][key]
	if !ok {
		return nil, nil, ErrEntryNotFound
	}
	return nil, append([]byte(nil), v...), nil
}

func (kv *KeyValue) KVDelete(name, key string) ([]byte, error) {
	if err := fault("kvdelete", name, key); err != nil {
		return nil, err
	}
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	if !kv.open[name] {
		return nil, ErrKVTableNotOpened
	}
	v, ok := kv.st.KV[name][key]
	if !ok {
		return nil, ErrEntryNotFound
	}
	delete(kv.st.KV[name], key)
	return v, nil
}

func (kv *KeyValue) LoadKVTables(encryptionPassword string) (map[string][]string, error) {
	kv.st.mu.Lock()
	defer kv.st.mu.Unlock()
	r := map[string][]string{}
	for n := range kv.st.KV {
		r[n] = []string{StringIndex.String()}
	}
	return r, nil
}

type DBSchema struct {
	Name            string   `json:"name"`
	Mutable         bool     `json:"mutable"`
	SimpleIndexes   []SIndex `json:"simple_indexes,omitempty"`
	MapIndexes      []SIndex `json:"map_indexes,omitempty"`
	ListIndexes     []SIndex `json:"list_indexes,omitempty"`
	VectorIndexes   []SIndex `json:"vector_indexes,omitempty"`
	CompoundIndexes []CIndex `json:"compound_indexes,omitempty"`
}

type SIndex struct {
	FieldName string    `json:"name"`
	FieldType IndexType `json:"type"`
}

type CIndex struct {
	SimpleIndexes []SIndex
}

// Document is the document store of one pod.
type Document struct {
	st   *Storage
	open map[string]bool
}

func NewDoc(st *Storage) *Document { return &Document{st: st, open: map[string]bool{}} }

func (d *Document) IsDBOpened(name string) bool {
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	return d.open[name]
}

func (d *Document) CreateDocumentDB(name, pw string, indexes map[string]IndexType, mutable bool) error {
	if err := fault("doccreate", name, ""); err != nil {
		return err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	if d.open[name] {
		return ErrDocumentDBAlreadyOpened
	}
	if _, ok := d.st.Docs[name]; ok {
		return ErrDocumentDBAlreadyPresent
	}
	s := DBSchema{Name: name, Mutable: mutable, SimpleIndexes: []SIndex{{DefaultIndexFieldName, StringIndex}}}
	var fields []string
	for f := range indexes {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		ix := SIndex{f, indexes[f]}
		switch indexes[f] {
		case MapIndex:
			s.MapIndexes = append(s.MapIndexes, ix)
		case ListIndex:
			s.ListIndexes = append(s.ListIndexes, ix)
		case VectorIndex:
			s.VectorIndexes = append(s.VectorIndexes, ix)
		default:
			s.SimpleIndexes = append(s.SimpleIndexes, ix)
		}
	}
	d.st.Docs[name] = &DocTable{Schema: s}
	return nil
}

func (d *Document) OpenDocumentDB(name, pw string) error {
	if err := fault("docopen", name, ""); err != nil {
		return err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	if d.open[name] {
		return ErrDocumentDBAlreadyOpened
	}
	if _, ok := d.st.Docs[name]; !ok {
		return ErrDocumentDBNotPresent
	}
	d.open[name] = true
	return nil
}

func (d *Document) DeleteDocumentDB(name, pw string) error {
	if err := fault("docdrop", name, ""); err != nil {
		return err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	if _, ok := d.st.Docs[name]; !ok {
		return ErrDocumentDBNotPresent
	}
	delete(d.st.Docs, name)
	delete(d.open, name)
	return nil
}

func (d *Document) LoadDocumentDBSchemas(pw string) (map[string]DBSchema, error) {
	if err := fault("doclist", "", ""); err != nil {
		return nil, err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	r := map[string]DBSchema{}
	for n, t := range d.st.Docs {
		r[n] = t.Schema
	}
	return r, nil
}

func (d *Document) Put(name string, doc []byte) error {
	if err := fault("docput", name, ""); err != nil {
		return err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	if !d.open[name] {
		return ErrDocumentDBNotOpened
	}
	t := d.st.Docs[name]
	var m map[string]interface{}
	if err := json.Unmarshal(doc, &m); err != nil {
		return err
	}
	row := Row{Data: append([]byte(nil), doc...), Field: map[string]string{}}
	for _, ix := range t.Schema.SimpleIndexes {
		v, ok := m[ix.FieldName]
		if !ok {
			return ErrDocumentDBIndexFieldNotPresent
		}
		switch ix.FieldType {
		case StringIndex:
			s, ok := v.(string)
			if !ok {
				return ErrInvalidIndexType
			}
			row.Field[ix.FieldName] = s
		case NumberIndex:
			f, ok := v.(float64)
			if !ok {
				return ErrInvalidIndexType
			}
			row.Field[ix.FieldName] = strconv.FormatFloat(f, 'f', -1, 64)
		case BytesIndex:
			return ErrIndexNotSupported
		default:
			return ErrInvalidIndexType
		}
	}
	id := row.Field[DefaultIndexFieldName]
	if id == "" {
		return ErrInvalidDocumentId
	}
	row.ID = id
	rows := []Row{}
	for _, r := range t.Rows {
		if r.ID != id { // a document with the same id is replaced
			rows = append(rows, r)
		}
	}
	t.Rows = append(rows, row)
	return nil
}

func (d *Document) Find(name, expr string, limit int) ([][]byte, error) {
	if err := fault("docfind", name, expr); err != nil {
		return nil, err
	}
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	if !d.open[name] {
		return nil, ErrDocumentDBNotOpened
	}
	t := d.st.Docs[name]
	var out [][]byte
	if expr == "" {
		return nil, ErrEntryNotFound
	}
	i := strings.Index(expr, "=")
	if i < 0 {
		return nil, ErrInvalidOperator
	}
	f, v := expr[:i], expr[i+1:]
	known := false
	for _, ix := range t.Schema.SimpleIndexes {
		if ix.FieldName == f {
			known = true
			if ix.FieldType == NumberIndex {
				n, err := strconv.ParseInt(v, 10, 64)
				if err != nil {
					return nil, fmt.Errorf("invalid number %q", v)
				}
				v = strconv.FormatInt(n, 10)
			}
		}
	}
	if !known {
		return nil, ErrIndexNotPresent
	}
	for _, r := range t.Rows {
		if r.Field[f] == v {
			out = append(out, append([]byte(nil), r.Data...))
			if limit > 0 && len(out) >= limit {
				break
			}
		}
	}
	return out, nil
}

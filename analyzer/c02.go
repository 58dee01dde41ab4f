package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guardedTable is the frozen list of fields that belong to a mutex. A field
// also counts as guarded as soon as some write to it happens under a lock of
// its own object.
var guardedTable = map[string]bool{
	"BasicEMap.mapData":        true,
	"EClassExt.eAllAttributes": true, "EClassExt.eAllReferences": true, "EClassExt.eAllContainments": true,
	"EClassExt.eAllStructuralFeatures": true, "EClassExt.eAllOperations": true, "EClassExt.eAllSuperTypes": true,
	"EClassExt.eAllCrossReferences": true, "EClassExt.eAttributes": true, "EClassExt.eContainmentFeatures": true,
	"EClassExt.eCrossReferenceFeatures": true, "EClassExt.eIDAttribute": true, "EClassExt.eReferences": true,
	"EClassExt.nameToFeatureMap": true, "EClassExt.operationToOverrideMap": true, "EClassExt.subClasses": true,
	"EPackageExt.classifierCache": true,
	"EStoreEObjectImpl.cache":     true, "EStoreEObjectImpl.store": true, "EStoreEObjectImpl.properties": true,
	"EStoreList.cache": true, "EStoreList.data": true, "EStoreList.size": true, "EStoreList.store": true,
	"SQLStore.goroutines": true, "SQLStore.manyQueries": true, "SQLStore.singleQueries": true, "SQLStore.objectOperations": true,
	"UniqueIDManager.detachedToID": true, "UniqueIDManager.objectToID": true, "UniqueIDManager.idToObject": true,
	"sqlBase.sqliteQueries": true, "sqlEncoderLockManager.locks": true, "sqlSchema.classSchemaMap": true,
	"sqlStoreIDManagerImpl.objects": true,
}

func init() { register("C02", checkC02) }

func checkC02(c *Ctx) {
	l := c.locks()
	acc := l.fieldAccesses()
	ownLocks := func(a *fieldAccess) []heldLock {
		var out []heldLock
		for _, v := range a.held {
			if v.key.path.Root == a.base.Root && strings.HasPrefix(v.key.path.Sel, a.base.Sel) || v.key.path.Sel == ".<looked-up>" && v.key.path.Root == a.base.Root {
				out = append(out, v)
			}
		}
		return out
	}
	name := func(a *fieldAccess) string { return a.owner.Obj().Name() + "." + a.field.Name() }
	guarded := map[string]bool{}
	for k := range guardedTable {
		guarded[k] = true
	}
	classes := map[string]map[string]int{}
	for _, a := range acc {
		if a.fresh {
			continue
		}
		for _, v := range ownLocks(a) {
			if a.write {
				guarded[name(a)] = true
			}
			if classes[name(a)] == nil {
				classes[name(a)] = map[string]int{}
			}
			classes[name(a)][v.class]++
		}
	}
	// every map of a struct with a mutex that is changed after construction
	for _, a := range acc {
		if _, isMap := a.field.Type().Underlying().(*types.Map); isMap && a.write && !a.fresh {
			guarded[name(a)] = true
		}
	}
	const rule = "guarded-field"
	c.Rule(rule, "every access, outside construction, to a field that belongs to a mutex happens while that mutex is held (entry locksets over the call graph + path-sensitive must-held sets); writes not under a read lock")
	for _, a := range acc {
		n := name(a)
		if a.fresh || !guarded[n] {
			continue
		}
		best := ""
		for k, v := range classes[n] {
			if best == "" || v > classes[n][best] || v == classes[n][best] && k < best {
				best = k
			}
		}
		ok, shared := false, false
		for _, v := range ownLocks(a) {
			if v.class == best {
				if v.key.read && a.write {
					shared = true
				} else {
					ok = true
				}
			}
		}
		rw := "read"
		if a.write {
			rw = "write"
		}
		key := fmt.Sprintf("%s %s in %s", n, rw, fname(topFn(a.fn)))
		why := "is not held"
		if shared {
			why = "is only read-locked"
		}
		c.Decide(ok, rule, key, a.in.Pos(), "%s: %s of %s while its mutex %s %s", fname(a.fn), a.what, n, best, why)
		if os.Getenv("DUMP") != "" && !ok {
			fmt.Println(key, a.what, c.at(a.in.Pos()))
		}
	}
	c.Floor(rule, 150)
	c02Promoted(c, guarded)
	c02Shared(c)
	var gs []string
	for g := range guarded {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	c.Notes["guarded_fields"] = gs
}

// c02Promoted: a struct with a mutex that embeds an unsynchronised struct must
// not promote methods touching the state it guards.
func c02Promoted(c *Ctx, guarded map[string]bool) {
	const rule = "promoted-access"
	c.Rule(rule, "a method promoted from an embedded struct without a mutex does not touch state that the embedding struct guards with its own mutex")
	for _, n := range c.Named {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !hasMutex(st) {
			continue
		}
		ms := c.SSA.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if len(sel.Index()) < 2 || !sel.Obj().Exported() {
				continue
			}
			fn := c.unwrap(c.SSA.MethodValue(sel))
			if fn == nil || len(fn.Params) == 0 || fn.Blocks == nil {
				continue
			}
			rst, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
			if !ok || hasMutex(rst) {
				continue
			}
			bad := ""
			touched := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == fn.Params[0] {
						touched = true
						if g := n.Obj().Name() + "." + fieldOf(fa).Name(); guarded[g] {
							bad = g
						}
					}
				}
			}
			if touched {
				c.Decide(bad == "", rule, n.Obj().Name()+" promotes "+fname(fn), fn.Pos(), "%s is promoted to %s and accesses %s without the mutex", fname(fn), n.Obj().Name(), bad)
			}
		}
	}
}

func hasMutex(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// sharedStructs are the structs that the operations a store runs concurrently
// share; the fields they change after construction need a mutex.
var sharedStructs = map[string]bool{"sqlDecoder": true, "sqlEncoder": true, "sqlSingleQueries": true, "sqlManyQueries": true, "sqlBase": true, "sqlSchema": true, "SQLStore": true}

func c02Shared(c *Ctx) {
	const rule = "shared-struct"
	c.Rule(rule, "a struct shared by concurrently running database operations whose maps or lazily computed fields change after construction owns a mutex for them")
	found := map[string]bool{}
	for _, n := range c.Named {
		if !sharedStructs[n.Obj().Name()] {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		found[n.Obj().Name()] = true
		if hasMutex(st) {
			c.Ok(rule, n.Obj().Name(), n.Obj().Pos())
			continue
		}
		mut := ""
		for _, fn := range c.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || typeName(fa.X.Type()) != n.Obj().Name() || c.isFresh(fa.X, fn, map[*ssa.Parameter]bool{}) {
						continue
					}
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == fa {
								mut = fieldOf(fa).Name() + " in " + fname(fn)
							}
						case *ssa.UnOp:
							contentUses(r, func(_ ssa.Instruction, w bool, _ string) {
								if w {
									mut = fieldOf(fa).Name() + " in " + fname(fn)
								}
							}, 0)
						}
					}
				}
			}
		}
		c.Decide(mut == "", rule, n.Obj().Name(), n.Obj().Pos(), "%s is shared by concurrent operations, changes %s and owns no mutex", n.Obj().Name(), mut)
	}
	if len(found) != len(sharedStructs) {
		c.Notes["shared_structs_missing"] = len(sharedStructs) - len(found)
	}
	c.Floor(rule, 5)
}

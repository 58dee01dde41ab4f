From 0df5da7ee3f1e5024c10955149b627a1ec5fe25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/53] fix: guard every table of the store's identifier
 manager with its mutex

---
 ecore/sqlstore.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index d24f07c..9942733 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -362,15 +362,43 @@ func newSQLStoreIDManager() SQLStoreIDManager {
 }
 
 func (r *sqlStoreIDManagerImpl) SetPackageID(p EPackage, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.packages[id] = p
 	r.sqlEncoderIDManagerImpl.packages[p] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetPackageFromID(id int64) (p EPackage, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetPackageFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetPackageID(p EPackage) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetPackageID(p)
+}
+
 func (r *sqlStoreIDManagerImpl) SetClassID(c EClass, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.classes[id] = c
 	r.sqlEncoderIDManagerImpl.classes[c] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetClassFromID(id int64) (c EClass, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetClassFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetClassID(c EClass) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetClassID(c)
+}
+
 func (r *sqlStoreIDManagerImpl) GetObjectFromID(id int64) (o EObject, b bool) {
 	r.mutex.Lock()
 	defer r.mutex.Unlock()
@@ -418,10 +446,24 @@ func (r *sqlStoreIDManagerImpl) ClearObjectID(o EObject) {
 }
 
 func (r *sqlStoreIDManagerImpl) SetEnumLiteralID(e EEnumLiteral, id int64) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.sqlDecoderIDManagerImpl.enumLiterals[id] = e
 	r.sqlEncoderIDManagerImpl.enumLiterals[e] = id
 }
 
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralFromID(id int64) (e EEnumLiteral, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlDecoderIDManagerImpl.GetEnumLiteralFromID(id)
+}
+
+func (r *sqlStoreIDManagerImpl) GetEnumLiteralID(e EEnumLiteral) (id int64, b bool) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	return r.sqlEncoderIDManagerImpl.GetEnumLiteralID(e)
+}
+
 var operationID atomic.Int64
 
 type operationType uint8
-- 
2.43.0


From 4dacdaef6fcf8f27ad3ba9a687f954f3e2f7bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 02/53] fix: guard the class data tables shared by concurrent
 database operations

---
 ecore/sqldecoder.go | 15 ++++++++++++++-
 ecore/sqlencoder.go |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 5f8a7d2..9358c78 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -5,9 +5,12 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/chebyrash/promise"
@@ -131,6 +134,7 @@ func (r *sqlDecoderObjectManager) registerObject(EObject) {
 type sqlDecoder struct {
 	*sqlBase
 	classDataMap     map[EClass]*sqlDecoderClassData
+	classDataMutex   sync.Mutex
 	packageRegistry  EPackageRegistry
 	sqlIDManager     SQLDecoderIDManager
 	sqlObjectManager sqlObjectManager
@@ -264,6 +268,8 @@ func (d *sqlDecoder) decodeClass(id int64) (*sqlDecoderClassData, error) {
 }
 
 func (d *sqlDecoder) getDecoderClassData(eClass EClass) *sqlDecoderClassData {
+	d.classDataMutex.Lock()
+	defer d.classDataMutex.Unlock()
 	classData, isClassData := d.classDataMap[eClass]
 	if !isClassData {
 		classData = &sqlDecoderClassData{
@@ -949,10 +955,12 @@ func (d *SQLDecoder) decodeClasses() error {
 
 				d.sqlIDManager.SetClassID(eClass, classID)
 
+				d.classDataMutex.Lock()
 				d.classDataMap[eClass] = &sqlDecoderClassData{
 					eClass:   eClass,
 					eFactory: ePackage.GetEFactoryInstance(),
 				}
+				d.classDataMutex.Unlock()
 				return nil
 			},
 		})
@@ -971,7 +979,9 @@ func (d *SQLDecoder) decodeObjects() error {
 				}
 
 				// class data
+				d.classDataMutex.Lock()
 				classData := d.classDataMap[eClass]
+				d.classDataMutex.Unlock()
 				if classData == nil {
 					return fmt.Errorf("unable to find class data with id '%v'", classID)
 				}
@@ -1006,8 +1016,11 @@ func (d *SQLDecoder) decodeObjects() error {
 func (d *SQLDecoder) decodeFeatures() error {
 	decoded := map[EClass]struct{}{}
 	decoding := []*promise.Promise[any]{}
+	d.classDataMutex.Lock()
+	classDatas := slices.Collect(maps.Values(d.classDataMap))
+	d.classDataMutex.Unlock()
 	// for each leaf class
-	for _, classData := range d.classDataMap {
+	for _, classData := range classDatas {
 		eClass := classData.eClass
 		itSuper := eClass.GetEAllSuperTypes().Iterator()
 		for eClass != nil {
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 5634fdf..ef81dfd 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -183,6 +183,7 @@ type sqlEncoder struct {
 	isForced         bool
 	isKeepDefaults   bool
 	classDataMap     map[EClass]*sqlEncoderClassData
+	classDataMutex   sync.Mutex
 	sqlIDManager     SQLEncoderIDManager
 	sqlObjectManager sqlObjectManager
 	sqlLockManager   *sqlEncoderLockManager
@@ -575,7 +576,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 	e.sqlLockManager.lock(eClass)
 	defer e.sqlLockManager.unlock(eClass)
 
+	e.classDataMutex.Lock()
 	classData := e.classDataMap[eClass]
+	e.classDataMutex.Unlock()
 	if classData == nil {
 		logger.Debug("class data create")
 
@@ -639,8 +642,9 @@ func (e *sqlEncoder) getEncoderClassData(eClass EClass) (*sqlEncoderClassData, e
 			features:  classFeatures,
 			hierarchy: classHierarchy,
 		}
+		e.classDataMutex.Lock()
 		e.classDataMap[eClass] = classData
-
+		e.classDataMutex.Unlock()
 	}
 	return classData, nil
 }
-- 
2.43.0


From 61a42eb527100270394f7d161a23086091273bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 03/53] fix: build the lazily created store queries under a
 lock

---
 ecore/sqlstore.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 9942733..6293947 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -27,6 +27,7 @@ import (
 // log queries
 
 type sqlSingleQueries struct {
+	mutex       sync.Mutex
 	column      *sqlColumn
 	updateQuery string
 	selectQuery string
@@ -34,6 +35,8 @@ type sqlSingleQueries struct {
 }
 
 func (ss *sqlSingleQueries) getUpdateQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateQuery) == 0 {
 		// query
 		table := ss.column.table
@@ -51,6 +54,8 @@ func (ss *sqlSingleQueries) getUpdateQuery() string {
 }
 
 func (ss *sqlSingleQueries) getSelectQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectQuery) == 0 {
 		table := ss.column.table
 		// query
@@ -68,6 +73,8 @@ func (ss *sqlSingleQueries) getSelectQuery() string {
 }
 
 func (ss *sqlSingleQueries) getRemoveQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.removeQuery) == 0 {
 		// query
 		table := ss.column.table
@@ -83,6 +90,7 @@ func (ss *sqlSingleQueries) getRemoveQuery() string {
 }
 
 type sqlManyQueries struct {
+	mutex            sync.Mutex
 	table            *sqlTable
 	updateValueQuery string
 	updateIdxQuery   string
@@ -101,6 +109,8 @@ type sqlManyQueries struct {
 }
 
 func (ss *sqlManyQueries) getInsertQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.insertQuery) == 0 {
 		ss.insertQuery = ss.table.insertQuery()
 	}
@@ -108,6 +118,8 @@ func (ss *sqlManyQueries) getInsertQuery() string {
 }
 
 func (ss *sqlManyQueries) getUpdateValueQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateValueQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -129,6 +141,8 @@ func (ss *sqlManyQueries) getUpdateValueQuery() string {
 }
 
 func (ss *sqlManyQueries) getUpdateIdxQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.updateIdxQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -149,6 +163,8 @@ func (ss *sqlManyQueries) getUpdateIdxQuery() string {
 }
 
 func (ss *sqlManyQueries) getSelectOneQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectOneQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -167,6 +183,8 @@ func (ss *sqlManyQueries) getSelectOneQuery() string {
 }
 
 func (ss *sqlManyQueries) getSelectAllQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.selectAllQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -185,6 +203,8 @@ func (ss *sqlManyQueries) getSelectAllQuery() string {
 }
 
 func (ss *sqlManyQueries) getExistsQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.existsQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT EXISTS(SELECT 1 FROM ")
@@ -198,6 +218,8 @@ func (ss *sqlManyQueries) getExistsQuery() string {
 }
 
 func (ss *sqlManyQueries) getClearQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.clearQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("DELETE FROM ")
@@ -211,6 +233,8 @@ func (ss *sqlManyQueries) getClearQuery() string {
 }
 
 func (ss *sqlManyQueries) getCountQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.countQuery) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT COUNT(*) FROM ")
@@ -224,6 +248,8 @@ func (ss *sqlManyQueries) getCountQuery() string {
 }
 
 func (ss *sqlManyQueries) getContainsQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.containsQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -240,6 +266,8 @@ func (ss *sqlManyQueries) getContainsQuery() string {
 }
 
 func (ss *sqlManyQueries) getIndexOfQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.indexOfQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -256,6 +284,8 @@ func (ss *sqlManyQueries) getIndexOfQuery() string {
 }
 
 func (ss *sqlManyQueries) getLastIndexOfQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.lastIndexOfQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
@@ -272,6 +302,8 @@ func (ss *sqlManyQueries) getLastIndexOfQuery() string {
 }
 
 func (ss *sqlManyQueries) getIdxToListIndexQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.idxToListIndex) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT COUNT(*) FROM ")
@@ -285,6 +317,8 @@ func (ss *sqlManyQueries) getIdxToListIndexQuery() string {
 }
 
 func (ss *sqlManyQueries) getListIndexToIdxQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.listIndexToIdx) == 0 {
 		var query strings.Builder
 		query.WriteString("SELECT idx FROM ")
@@ -298,6 +332,8 @@ func (ss *sqlManyQueries) getListIndexToIdxQuery() string {
 }
 
 func (ss *sqlManyQueries) getRemoveQuery() string {
+	ss.mutex.Lock()
+	defer ss.mutex.Unlock()
 	if len(ss.removeQuery) == 0 {
 		column := ss.table.columns[len(ss.table.columns)-1]
 		var query strings.Builder
-- 
2.43.0


From affde699298c0208d613afbca3c540f28744faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 04/53] fix: access store-backed list, map and object state
 under their locks

---
 ecore/estoreeobject_impl.go | 8 ++++----
 ecore/estorelist.go         | 4 ++--
 ecore/estoremap.go          | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..dc8344e 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -139,8 +139,8 @@ func (o *EStoreEObjectImpl) EInternalContainerFeatureID() int {
 
 func (o *EStoreEObjectImpl) initializeContainerFromStore() {
 	if o.ReflectiveEObjectImpl.EInternalContainer() == unitializedContainer {
-		if o.store != nil {
-			container, feature := o.store.GetContainer(o.AsEObject())
+		if store := o.GetEStore(); store != nil {
+			container, feature := store.GetContainer(o.AsEObject())
 			if container != nil && feature != nil {
 				featureID := EOPPOSITE_FEATURE_BASE - container.EClass().GetFeatureID(feature)
 				if reference, _ := feature.(EReference); reference != nil {
@@ -159,7 +159,7 @@ func (o *EStoreEObjectImpl) initializeContainerFromStore() {
 }
 
 func (o *EStoreEObjectImpl) setContainerInStore() {
-	if o.store != nil {
+	if store := o.GetEStore(); store != nil {
 		container := o.ReflectiveEObjectImpl.EInternalContainer()
 		containerFeatureID := o.ReflectiveEObjectImpl.EInternalContainerFeatureID()
 		if container != unitializedContainer {
@@ -171,7 +171,7 @@ func (o *EStoreEObjectImpl) setContainerInStore() {
 					containerFeature = o.AsEObject().EClass().GetEStructuralFeature(containerFeatureID).(EReference).GetEOpposite()
 				}
 			}
-			o.store.SetContainer(o.AsEObject(), container, containerFeature)
+			store.SetContainer(o.AsEObject(), container, containerFeature)
 		}
 	}
 }
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..0774219 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -510,11 +510,11 @@ func (list *EStoreList) IndexOf(element any) int {
 }
 
 func (list *EStoreList) Contains(element any) bool {
+	list.mutex.Lock()
+	defer list.mutex.Unlock()
 	if list.data != nil {
 		return list.BasicENotifyingList.Contains(element)
 	} else if list.store != nil {
-		list.mutex.Lock()
-		defer list.mutex.Unlock()
 		if list.store.Contains(list.owner, list.feature, element) {
 			return true
 		} else if list.object && list.proxies {
diff --git a/ecore/estoremap.go b/ecore/estoremap.go
index f210933..43d925c 100644
--- a/ecore/estoremap.go
+++ b/ecore/estoremap.go
@@ -68,7 +68,7 @@ func (m *EStoreMap) SetEStore(store EStore) {
 // Set object with a cache for its feature values
 func (m *EStoreMap) SetCache(cache bool) {
 	// reset map data
-	m.mapData = nil
+	m.doClear()
 	// set internal list cache
 	cacheProvider := m.EList.(ECacheProvider)
 	cacheProvider.SetCache(cache)
-- 
2.43.0


From e25dcbddf65616b8d86ef2bc984ba6a88d4722e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 05/53] fix: EClassExt.setModified releases its lock before
 locking sub classes

---
 ecore/eclass_ext.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..274d99b 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -9,7 +9,10 @@
 
 package ecore
 
-import "sync"
+import (
+	"slices"
+	"sync"
+)
 
 // EClassExt is the extension of the model object 'EClass'
 type EClassExt struct {
@@ -461,10 +464,13 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
 	}
-	for _, s := range eClass.subClasses {
+	subClasses := slices.Clone(eClass.subClasses)
+	eClass.mutex.Unlock()
+	// a class locks its super types while it initializes its features, sub classes
+	// must not be locked while holding the lock of their super type
+	for _, s := range subClasses {
 		s.setModified(featureID)
 	}
-	eClass.mutex.Unlock()
 }
 
 func IsMapEntry(eClass EClass) bool {
-- 
2.43.0


From 26ed0ce36fe43da04fa2cf615557a347458e3530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 06/53] fix: reset the cached cross references of a class when
 its features change

---
 ecore/eclass_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 274d99b..0eedd8c 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -445,6 +445,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EATTRIBUTES:
 		eClass.eAllAttributes = nil
 		eClass.eAllStructuralFeatures = nil
@@ -453,6 +454,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllReferences = nil
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EOPERATIONS:
 		eClass.eAllOperations = nil
 		eClass.eAllContainments = nil
@@ -463,6 +465,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	}
 	subClasses := slices.Clone(eClass.subClasses)
 	eClass.mutex.Unlock()
-- 
2.43.0


From a7de2bff7714fe5c349b6b57ad13c48dda495eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 07/53] fix: lock the entry list before the index of a map to
 keep a single lock order

---
 ecore/basicemap.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index d7b2697..3bb338b 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -79,8 +79,8 @@ func (m *BasicEMap) getEntryForKey(key any) EMapEntry {
 }
 
 func (m *BasicEMap) GetValue(key any) any {
-	m.mapMutex.Lock()
-	defer m.mapMutex.Unlock()
+	m.lockData()
+	defer m.unlockData()
 	m.initDataMap()
 	return m.mapData[key]
 }
@@ -142,20 +142,36 @@ func (m *BasicEMap) ContainsValue(value any) bool {
 }
 
 func (m *BasicEMap) ContainsKey(key any) bool {
-	m.mapMutex.Lock()
-	defer m.mapMutex.Unlock()
+	m.lockData()
+	defer m.unlockData()
 	m.initDataMap()
 	_, ok := m.mapData[key]
 	return ok
 }
 
 func (m *BasicEMap) ToMap() map[any]any {
-	m.mapMutex.Lock()
-	defer m.mapMutex.Unlock()
+	m.lockData()
+	defer m.unlockData()
 	m.initDataMap()
 	return m.mapData
 }
 
+// lockData locks the map index together with the entry list : entry list callbacks
+// update the index while holding the list lock, so the list lock has to be taken first
+func (m *BasicEMap) lockData() {
+	if l, _ := m.EList.(ELockProvider); l != nil {
+		l.Lock()
+	}
+	m.mapMutex.Lock()
+}
+
+func (m *BasicEMap) unlockData() {
+	m.mapMutex.Unlock()
+	if l, _ := m.EList.(ELockProvider); l != nil {
+		l.Unlock()
+	}
+}
+
 func (m *BasicEMap) initDataMap() {
 	if m.mapData == nil {
 		m.mapData = make(map[any]any, m.Size())
-- 
2.43.0


From aa559c5f69a5f8fc524258a170506d0c5214aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 08/53] fix: initialise the registries and the uri cache once

---
 ecore/ecodecregistry.go   | 7 +++++--
 ecore/epackageregistry.go | 7 +++++--
 ecore/uri.go              | 6 ++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/ecore/ecodecregistry.go b/ecore/ecodecregistry.go
index c1c1d5e..15c2a98 100644
--- a/ecore/ecodecregistry.go
+++ b/ecore/ecodecregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 const (
 	DEFAULT_EXTENSION = "*"
 )
@@ -19,10 +21,11 @@ type ECodecRegistry interface {
 	GetExtensionToCodecMap() map[string]ECodec
 }
 
+var resourceCodecRegistryOnce sync.Once
 var resourceCodecRegistryInstance ECodecRegistry
 
 func GetCodecRegistry() ECodecRegistry {
-	if resourceCodecRegistryInstance == nil {
+	resourceCodecRegistryOnce.Do(func() {
 		resourceCodecRegistryInstance = NewECodecRegistryImpl()
 		// initialize with default codecs
 		extensionToCodecs := resourceCodecRegistryInstance.GetExtensionToCodecMap()
@@ -32,6 +35,6 @@ func GetCodecRegistry() ECodecRegistry {
 		extensionToCodecs["sqlite"] = &SQLCodec{}
 		protocolToCodecs := resourceCodecRegistryInstance.GetProtocolToCodecMap()
 		protocolToCodecs["memory"] = &NoCodec{}
-	}
+	})
 	return resourceCodecRegistryInstance
 }
diff --git a/ecore/epackageregistry.go b/ecore/epackageregistry.go
index fedfbb1..401b42a 100644
--- a/ecore/epackageregistry.go
+++ b/ecore/epackageregistry.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "sync"
+
 type EPackageRegistry interface {
 	PutPackage(nsURI string, pack EPackage)
 	PutSupplier(nsURI string, supplier func() EPackage)
@@ -21,12 +23,13 @@ type EPackageRegistry interface {
 	GetFactory(nsURI string) EFactory
 }
 
+var packageRegistryOnce sync.Once
 var packageRegistryInstance EPackageRegistry
 
 func GetPackageRegistry() EPackageRegistry {
-	if packageRegistryInstance == nil {
+	packageRegistryOnce.Do(func() {
 		packageRegistryInstance = NewEPackageRegistryImpl()
 		packageRegistryInstance.RegisterPackage(GetPackage())
-	}
+	})
 	return packageRegistryInstance
 }
diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..f30fdca 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -13,6 +13,7 @@ import (
 	"net/url"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/KarpelesLab/weak"
 )
@@ -130,12 +131,13 @@ const (
 	fragmentComponent
 )
 
+var uriCacheOnce sync.Once
 var uriCache *weak.Map[string, URI]
 
 func getURICache() *weak.Map[string, URI] {
-	if uriCache == nil {
+	uriCacheOnce.Do(func() {
 		uriCache = weak.NewMap[string, URI]()
-	}
+	})
 	return uriCache
 }
 
-- 
2.43.0


From 727a3f7b787934d9d8705b20e0cd833187b8f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 09/53] fix: unregister a store query whatever its outcome, and
 never make it wait for itself

---
 ecore/sqlbase.go | 70 +++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/ecore/sqlbase.go b/ecore/sqlbase.go
index 7647ac1..bba84b8 100644
--- a/ecore/sqlbase.go
+++ b/ecore/sqlbase.go
@@ -2,7 +2,6 @@ package ecore
 
 import (
 	"context"
-	"errors"
 	"io"
 	"slices"
 	"strings"
@@ -98,6 +97,11 @@ loop:
 		queryTables = append(queryTables, "")
 	}
 
+	// each table once : a query registered twice for
+	// the same table would wait for itself
+	slices.Sort(queryTables)
+	queryTables = slices.Compact(queryTables)
+
 	return &query{
 		id:     queryID.Add(1),
 		cmd:    cmd,
@@ -176,6 +180,13 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	// create query promise
 	q.promise = promise.NewWithPool(func(resolve func(any), reject func(error)) {
 		goid := goid.Get()
+		// unregister query whatever its outcome : a failed query
+		// still registered would reject all the next ones
+		defer s.unregisterQuery(q)
+		fail := func(err error) {
+			s.unregisterQuery(q)
+			reject(err)
+		}
 		if len(previous) > 0 {
 			if e := s.sqliteLogger.Check(zap.DebugLevel, "waiting previous queries"); e != nil {
 				e.Write(
@@ -193,7 +204,7 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 						zap.Error(err),
 					)
 				}
-				reject(err)
+				fail(err)
 				return
 			}
 		}
@@ -201,7 +212,7 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 		// execute query
 		conn, err := s.connPool.Take(context.Background())
 		if err != nil {
-			reject(err)
+			fail(err)
 			return
 		}
 		defer s.connPool.Put(conn)
@@ -213,7 +224,7 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 		s.logger.Log(zap.DebugLevel, "executing", loggerArgs...)
 		if err := fn(conn, cmd, opts); err != nil {
 			s.logger.Error("executed", append(loggerArgs, zap.Error(err))...)
-			reject(err)
+			fail(err)
 			return
 		} else {
 			s.logger.Log(zap.DebugLevel, "executed", loggerArgs...)
@@ -226,36 +237,13 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 				zap.Int64("goid", goid),
 			)
 		}
-		s.sqliteMutex.Lock()
-		defer s.sqliteMutex.Unlock()
-
-		// unregister query from all tables
-		for _, table := range q.tables {
-			queries := s.sqliteQueries[table]
-			index := slices.Index(queries, q)
-			if index == -1 {
-				reject(errors.New("unable to find query index"))
-				return
-			}
-			// remove query from queries
-			copy(queries[index:], queries[index+1:])
-			queries[len(queries)-1] = nil
-			queries = queries[:len(queries)-1]
-			if len(queries) > 0 {
-				s.sqliteQueries[table] = queries
-			} else {
-				delete(s.sqliteQueries, table)
-			}
-		}
+		s.unregisterQuery(q)
 		if e := s.sqliteLogger.Check(zap.DebugLevel, "cleaned"); e != nil {
 			e.Write(
 				zap.Int64("id", q.id),
 				zap.Int64("goid", goid),
 			)
 		}
-		if len(s.sqliteQueries) == 0 {
-			s.sqliteLogger.Debug("no pending")
-		}
 		resolve(nil)
 	}, s.promisePool)
 
@@ -266,6 +254,32 @@ func (s *sqlBase) executeSqlite(fn executeQueryFn, cmd string, opts *sqlitex.Exe
 	return err
 }
 
+// unregister query from all its tables
+func (s *sqlBase) unregisterQuery(q *query) {
+	s.sqliteMutex.Lock()
+	defer s.sqliteMutex.Unlock()
+	for _, table := range q.tables {
+		queries := s.sqliteQueries[table]
+		index := slices.Index(queries, q)
+		if index == -1 {
+			// already unregistered
+			continue
+		}
+		// remove query from queries
+		copy(queries[index:], queries[index+1:])
+		queries[len(queries)-1] = nil
+		queries = queries[:len(queries)-1]
+		if len(queries) > 0 {
+			s.sqliteQueries[table] = queries
+		} else {
+			delete(s.sqliteQueries, table)
+		}
+	}
+	if len(s.sqliteQueries) == 0 {
+		s.sqliteLogger.Debug("no pending")
+	}
+}
+
 func (d *sqlBase) executeQuery(query string, opts *sqlitex.ExecOptions) error {
 	return d.executeSqlite(sqlitex.Execute, query, opts)
 }
-- 
2.43.0


From 688ec106384f8d0cf0513ba78044371cd0b88a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 10/53] fix: unregister a store operation when it, or an
 operation it waits for, failed

---
 ecore/sqlstore.go | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 6293947..183a1ed 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1244,6 +1244,25 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 	op.previous = previous
 	op.promise = promise.NewWithPool(func(resolve func(any), reject func(error)) {
 		goid := goid.Get()
+		// unregister operation, whatever its outcome, and settle its promise
+		settle := func(result any, err error) {
+			s.mutexOperations.Lock()
+			defer s.mutexOperations.Unlock()
+			for _, of := range registeredObjectFeatures {
+				if e := s.unregisterOperation(of.object, of.feature, op); e != nil {
+					err = errors.Join(err, e)
+				}
+			}
+			registeredObjectFeatures = nil
+			if len(s.objectOperations) == 0 {
+				s.loggerOperations.Debug("no pending")
+			}
+			if err != nil {
+				reject(err)
+			} else {
+				resolve(result)
+			}
+		}
 		// handle error
 		handleError := func(err error) {
 			if err != ctx.Err() {
@@ -1251,7 +1270,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 					zap.Object("operation", &operationMarshaler{op: op}),
 					zap.Error(err))
 			}
-			reject(err)
+			settle(nil, err)
 		}
 		// handle panic
 		handlePanic := func() {
@@ -1268,7 +1287,7 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 				zap.Object("operation", &operationMarshaler{op: op}),
 				zap.Error(err),
 				zap.Stack("stack"))
-			reject(err)
+			settle(nil, err)
 		}
 		defer handlePanic()
 
@@ -1319,14 +1338,12 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 				zap.Int64("id", op.id),
 			)
 		}
-		s.mutexOperations.Lock()
-		defer s.mutexOperations.Unlock()
 
-		for _, of := range registeredObjectFeatures {
-			if err := s.unregisterOperation(of.object, of.feature, op); err != nil {
-				handleError(err)
-				return
-			}
+		// result or error
+		if err != nil {
+			handleError(err)
+		} else {
+			settle(result, nil)
 		}
 		if e := s.loggerOperations.Check(zap.DebugLevel, "cleaned"); e != nil {
 			e.Write(
@@ -1334,17 +1351,6 @@ func (s *SQLStore) scheduleOperation(ctx context.Context, op *operation) *operat
 				zap.Int64("id", op.id),
 			)
 		}
-
-		if len(s.objectOperations) == 0 {
-			s.loggerOperations.Debug("no pending")
-		}
-
-		// result or error
-		if err != nil {
-			handleError(err)
-		} else {
-			resolve(result)
-		}
 	}, s.promisePool)
 	s.mutexOperations.Unlock()
 	// add to channel operations
-- 
2.43.0


From 793cd7dfa4d909ed35226de8a4e1d6c717cf24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 11/53] fix: release what the store acquired when opening or
 closing it fails

---
 ecore/sqlstore.go | 48 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index 183a1ed..eaad83a 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -691,9 +691,9 @@ func backupDB(dstConn, srcConn *sqlite.Conn) error {
 		return err
 	}
 	if more, err := backup.Step(-1); err != nil {
-		return err
+		return errors.Join(err, backup.Close())
 	} else if more {
-		return errors.New("full backup step with remaining pages")
+		return errors.Join(errors.New("full backup step with remaining pages"), backup.Close())
 	}
 	if err := backup.Close(); err != nil {
 		return err
@@ -714,7 +714,7 @@ func NewSQLStore(
 	}
 	if inMemoryDatabase {
 		return newSQLStore(
-			func() (*sqlitex.Pool, error) {
+			func() (_ *sqlitex.Pool, err error) {
 				connSrc, err := sqlite.OpenConn(databasePath)
 				if err != nil {
 					return nil, err
@@ -724,29 +724,34 @@ func NewSQLStore(
 				// create connection pool
 				name := filepath.Base(databasePath)
 				dbPath := fmt.Sprintf("file:%s?mode=memory&cache=shared", name)
-				connPool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
+				pool, err := sqlitex.NewPool(dbPath, sqlitex.PoolOptions{Flags: sqlite.OpenCreate | sqlite.OpenReadWrite | sqlite.OpenURI})
 				if err != nil {
 					return nil, err
 				}
+				defer func() {
+					if err != nil {
+						err = errors.Join(err, pool.Close())
+					}
+				}()
 
 				// create connection pool
-				connDst, err := connPool.Take(context.Background())
+				connDst, err := pool.Take(context.Background())
 				if err != nil {
 					return nil, err
 				}
-				defer connPool.Put(connDst)
+				defer pool.Put(connDst)
 
 				// backup src db to dst db
 				if err := backupDB(connDst, connSrc); err != nil {
 					return nil, err
 				}
 
-				return connPool, nil
+				return pool, nil
 			},
 			func(connPool *sqlitex.Pool) (err error) {
 				defer func() {
 					// close pool
-					err = connPool.Close()
+					err = errors.Join(err, connPool.Close())
 				}()
 
 				// destination connection is the store db
@@ -754,7 +759,9 @@ func NewSQLStore(
 				if err != nil {
 					return err
 				}
-				defer connDst.Close()
+				defer func() {
+					err = errors.Join(err, connDst.Close())
+				}()
 
 				// source connection is the memory db
 				connSrc, err := connPool.Take(context.Background())
@@ -846,9 +853,23 @@ func newSQLStore(
 	}()
 
 	// ants promise pool
-	antsPool, _ := ants.NewPool(math.MaxInt32, ants.WithExpiryDuration(5*time.Second), ants.WithLogger(&zapLogger{logger.Named("ants")}))
+	antsPool, err := ants.NewPool(math.MaxInt32, ants.WithExpiryDuration(5*time.Second), ants.WithLogger(&zapLogger{logger.Named("ants")}))
+	if err != nil {
+		return nil, err
+	}
 	promisePool := promise.FromAntsPool(antsPool)
 
+	// operations channel
+	chanOperations := newInfiniteChannel[*operation]()
+
+	// release workers and operations channel if there is an error
+	defer func() {
+		if err != nil {
+			chanOperations.Close()
+			antsPool.Release()
+		}
+	}()
+
 	// create sql base
 	base := &sqlBase{
 		codecVersion:     codecVersion,
@@ -888,7 +909,7 @@ func newSQLStore(
 		singleQueries:    map[*sqlColumn]*sqlSingleQueries{},
 		manyQueries:      map[*sqlTable]*sqlManyQueries{},
 		objectOperations: map[EObject]map[EStructuralFeature][]*operation{},
-		chanOperations:   newInfiniteChannel[*operation](),
+		chanOperations:   chanOperations,
 		timeoutOperation: timeoutOperation,
 		goroutines:       map[int64]map[EObject]struct{}{},
 		maxAllocSize:     int64(maxAllocSize),
@@ -2453,11 +2474,12 @@ func (s *SQLStore) Close() error {
 		// close operations channel
 		s.chanOperations.Close()
 
+		// release workers, even if connections closing fails
+		defer s.antsPool.Release()
+
 		if err := s.connPoolClose(s.connPool); err != nil {
 			return err
 		}
-
-		s.antsPool.Release()
 	}
 	return nil
 }
-- 
2.43.0


From 5b9fda34a5ba2a84f09055bfe6c432e6089d0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 12/53] fix: release workers, backups and temporary files of
 the database codecs when a step fails

---
 ecore/sqldecoder.go | 52 +++++++++++++++++++++++++--------------------
 ecore/sqlencoder.go | 18 +++++++++-------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index 9358c78..c97e233 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -587,7 +587,7 @@ type SQLDecoder struct {
 
 const SQLITE_MAX_ALLOCATION_SIZE = 2147483391
 
-func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlitex.Pool, error) {
+func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (_ *sqlitex.Pool, err error) {
 	// create a memory connection
 	var connSrc *sqlite.Conn
 
@@ -598,6 +598,10 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 			return nil, err
 		}
 
+		if len(bytes) < 20 {
+			return nil, errors.New("invalid sqlite database")
+		}
+
 		// set journal mode as rolling back ( WAL is not supported )
 		bytes[18] = 0x01
 		bytes[19] = 0x01
@@ -608,6 +612,10 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 		if err != nil {
 			return nil, err
 		}
+		defer func() {
+			// remove tmp file
+			_ = os.Remove(tmpPath)
+		}()
 
 		// write bytes inside it
 		_, err = tmpFile.Write(bytes)
@@ -629,8 +637,6 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 		defer func() {
 			// collection source connection
 			_ = connSrc.Close()
-			// remove tmp file
-			_ = os.Remove(tmpPath)
 		}()
 	}
 
@@ -640,6 +646,11 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			err = errors.Join(err, connPool.Close())
+		}
+	}()
 
 	// create connection pool
 	connDst, err := connPool.Take(context.Background())
@@ -650,19 +661,9 @@ func newMemoryConnectionPool(dbName string, tmpPath string, r io.Reader) (*sqlit
 
 	if connSrc != nil {
 		// backup src db to dst db
-		backup, err := sqlite.NewBackup(connDst, "main", connSrc, "main")
-		if err != nil {
-			return nil, err
-		}
-		if more, err := backup.Step(-1); err != nil {
+		if err := backupDB(connDst, connSrc); err != nil {
 			return nil, err
-		} else if more {
-			return nil, errors.New("full backup step with remaining pages")
 		}
-		if err := backup.Close(); err != nil {
-			return nil, err
-		}
-
 	}
 
 	return connPool, nil
@@ -678,17 +679,18 @@ func newFileConnectionPool(tmpPath string, r io.Reader) (p *sqlitex.Pool, err er
 		dbFile.Close()
 		return nil, err
 	}
-	dbFile.Close()
+	if err := dbFile.Close(); err != nil {
+		return nil, err
+	}
 
 	return sqlitex.NewPool(tmpPath, sqlitex.PoolOptions{})
 }
 
 func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any) *SQLDecoder {
-	var err error
 	var dbPath string
 	var remove bool
 	return newSQLDecoder(
-		func() (*sqlitex.Pool, error) {
+		func() (_ *sqlitex.Pool, err error) {
 			// db name
 			dbName := filepath.Base(resource.GetURI().Path())
 			inMemoryDatabase := false
@@ -702,6 +704,12 @@ func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any
 					return nil, err
 				}
 				remove = true
+				// remove tmp dbPath if there is an error
+				defer func() {
+					if err != nil {
+						_ = os.Remove(dbPath)
+					}
+				}()
 			}
 			if inMemoryDatabase {
 				return newMemoryConnectionPool(dbName, dbPath, r)
@@ -711,14 +719,12 @@ func NewSQLReaderDecoder(r io.Reader, resource EResource, options map[string]any
 		},
 		func(connPool *sqlitex.Pool) error {
 			// close connection pool
-			if err := connPool.Close(); err != nil {
-				return err
-			}
+			err := connPool.Close()
 			// remove tmp dbPath
 			if remove {
 				_ = os.Remove(dbPath)
 			}
-			return nil
+			return err
 		},
 		resource,
 		options)
@@ -809,6 +815,8 @@ func newSQLDecoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 }
 
 func (d *SQLDecoder) DecodeResource() {
+	defer d.antsPool.Release()
+
 	var err error
 	if d.connPool, err = d.connPoolProvider(); err != nil {
 		d.addError(err)
@@ -818,8 +826,6 @@ func (d *SQLDecoder) DecodeResource() {
 		if err := d.connPoolClose(d.connPool); err != nil {
 			d.addError(err)
 		}
-
-		d.antsPool.Release()
 	}()
 
 	if err := d.decodeVersion(); err != nil {
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index ef81dfd..99a4d10 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -752,7 +752,14 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 						}},
 				)
 			},
-			func(connPool *sqlitex.Pool) error {
+			func(connPool *sqlitex.Pool) (err error) {
+				// remove tmp file
+				defer func() {
+					if e := os.Remove(dbPath); e != nil && err == nil {
+						err = e
+					}
+				}()
+
 				// close db
 				if err := connPool.Close(); err != nil {
 					return err
@@ -777,11 +784,6 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 					return err
 				}
 
-				// remove it from fs
-				if err := os.Remove(dbPath); err != nil {
-					return err
-				}
-
 				return nil
 			},
 			resource,
@@ -868,6 +870,8 @@ func newSQLEncoder(connectionPoolProvider func() (*sqlitex.Pool, error), connect
 }
 
 func (e *SQLEncoder) EncodeResource() {
+	defer e.antsPool.Release()
+
 	var err error
 	if e.connPool, err = e.connPoolProvider(); err != nil {
 		e.addError(err)
@@ -877,8 +881,6 @@ func (e *SQLEncoder) EncodeResource() {
 		if err := e.connPoolClose(e.connPool); err != nil {
 			e.addError(err)
 		}
-
-		e.antsPool.Release()
 	}()
 
 	if err := e.encodeVersion(); err != nil {
-- 
2.43.0


From d6ae2f3e81f009683289614a8e4f0445a6cbdc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 13/53] fix: report the failure to close a resource's reader or
 writer

---
 ecore/eresource_impl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..cdc207d 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -431,7 +431,9 @@ func (r *EResourceImpl) LoadWithOptions(options map[string]any) {
 				errors.Add(NewEDiagnosticImpl("Unable to create reader for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
 			} else if rd != nil {
 				r.LoadWithReader(rd, options)
-				rd.Close()
+				if err := rd.Close(); err != nil {
+					r.GetErrors().Add(NewEDiagnosticImpl("Unable to close reader for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
+				}
 			}
 		}
 	}
@@ -516,7 +518,9 @@ func (r *EResourceImpl) SaveWithOptions(options map[string]any) {
 			errors.Add(NewEDiagnosticImpl("Unable to create writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
 		} else if w != nil {
 			r.SaveWithWriter(w, options)
-			w.Close()
+			if err := w.Close(); err != nil {
+				r.GetErrors().Add(NewEDiagnosticImpl("Unable to close writer for '"+r.uri.String()+"' :"+err.Error(), r.uri.String(), 0, 0))
+			}
 		}
 	}
 }
-- 
2.43.0


From 18cc81d692575449715e694fadb24ee5b9e03ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 14/53] fix: report the failures the database codecs and the
 xml decoder silently dropped

---
 ecore/sqldecoder.go |  2 +-
 ecore/sqlencoder.go | 12 ++++++------
 ecore/sqlstore.go   | 16 ++++++++++------
 ecore/xmldecoder.go | 12 ++++++++++--
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index c97e233..dcf0017 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -168,7 +168,7 @@ func (d *sqlDecoder) decodeSchema(schemaOptions []sqlSchemaOption) error {
 	// properties
 	properties, err := d.decodeProperties()
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// object id column name
diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 99a4d10..b1a6b4c 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -734,14 +734,14 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 			options,
 		)
 	} else {
-		// create a temp file for the database file
 		fileName := filepath.Base(resource.GetURI().Path())
-		dbPath, err := sqlTmpDB(fileName)
-		if err != nil {
-			return nil
-		}
+		var dbPath string
 		return newSQLEncoder(
-			func() (*sqlitex.Pool, error) {
+			func() (_ *sqlitex.Pool, err error) {
+				// create a temp file for the database file
+				if dbPath, err = sqlTmpDB(fileName); err != nil {
+					return nil, err
+				}
 				return sqlitex.NewPool(
 					dbPath,
 					sqlitex.PoolOptions{
diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index eaad83a..ca63c1c 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -1491,7 +1491,7 @@ func (s *SQLStore) doGet(object EObject, feature EStructuralFeature, index int)
 	}
 	featureSchema, err := s.getFeatureSchema(object, feature)
 	if err != nil {
-		return err, nil
+		return nil, err
 	}
 	return s.getValue(sqlObjectID, featureSchema, index)
 }
@@ -1516,7 +1516,7 @@ func (s *SQLStore) getValue(sqlID int64, featureSchema *sqlFeatureSchema, index
 				value = decodeAny(stmt, 0)
 				return nil
 			}}); err != nil {
-		return err, nil
+		return nil, err
 	}
 
 	return s.decodeFeatureValue(featureSchema, value)
@@ -1671,12 +1671,14 @@ func (s *SQLStore) doUnSet(object EObject, feature EStructuralFeature) (any, err
 }
 
 func (s *SQLStore) IsEmpty(object EObject, feature EStructuralFeature) bool {
-	return awaitOperation[bool](
+	// empty unless the store tells otherwise
+	return !awaitOperation[bool](
 		context.Background(),
 		s.scheduleOperation(
 			context.Background(),
 			newOperation("IsEmpty", operationRead, object, feature, false, -1, nil, func() (any, error) {
-				return s.doIsEmpty(object, feature)
+				isEmpty, err := s.doIsEmpty(object, feature)
+				return !isEmpty, err
 			})))
 }
 
@@ -1703,7 +1705,7 @@ func (s *SQLStore) doIsEmpty(object EObject, feature EStructuralFeature) (bool,
 				isEmpty = !stmt.ColumnBool(0)
 				return nil
 			}}); err != nil {
-		return true, nil
+		return true, err
 	}
 	return isEmpty, nil
 
@@ -2302,7 +2304,9 @@ func (s *SQLStore) SetContainer(object EObject, container EObject, feature EStru
 	}
 	s.mutexGoRoutines.Unlock()
 	if sync {
-		_, _ = s.doSetContainer(object, container, feature)
+		if _, err := s.doSetContainer(object, container, feature); err != nil {
+			s.logger.Error("error", zap.String("operation", "SetContainer"), zap.Error(err))
+		}
 	} else {
 		s.scheduleOperation(context.Background(), newOperation("SetContainer", operationWrite, object, feature, false, -1, container, func() (any, error) {
 			return s.doSetContainer(object, container, feature)
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..fd5f3c6 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -656,8 +656,16 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 
 func (l *XMLDecoder) handleProxy(eProxy EObject, id string) {
 	resourceURI := l.resource.GetURI()
-	uri, ok := ParseURI(id)
-	if ok != nil || resourceURI == nil {
+	uri, err := ParseURI(id)
+	if err != nil {
+		path := ""
+		if resourceURI != nil {
+			path = resourceURI.String()
+		}
+		l.error(NewEDiagnosticImpl(err.Error(), path, int(l.decoder.InputOffset()), 0))
+		return
+	}
+	if resourceURI == nil {
 		return
 	}
 	// resolve reference uri
-- 
2.43.0


From 2de2dabdaca0feaf3d9d07ae2037958ea7734ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 15/53] fix: remove the encoder's temporary database when it
 cannot be opened

---
 ecore/sqlencoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index b1a6b4c..491735c 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -742,6 +742,12 @@ func NewSQLWriterEncoder(w io.Writer, resource EResource, options map[string]any
 				if dbPath, err = sqlTmpDB(fileName); err != nil {
 					return nil, err
 				}
+				// remove tmp file if there is an error
+				defer func() {
+					if err != nil {
+						_ = os.Remove(dbPath)
+					}
+				}()
 				return sqlitex.NewPool(
 					dbPath,
 					sqlitex.PoolOptions{
-- 
2.43.0


From 0d56552e89691230ac9030a649fa4617ac64cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 16/53] fix: report the failures to write a json document

---
 ecore/jsonencoder.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index aa89457..4120e16 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -9,8 +9,23 @@ import (
 	"github.com/karlseguin/jsonwriter"
 )
 
+// jsonOutput keeps the first failure of the writer it wraps: jsonwriter ignores them
+type jsonOutput struct {
+	w   io.Writer
+	err error
+}
+
+func (o *jsonOutput) Write(p []byte) (int, error) {
+	n, err := o.w.Write(p)
+	if err != nil && o.err == nil {
+		o.err = err
+	}
+	return n, err
+}
+
 type JSONEncoder struct {
 	resource        EResource
+	output          *jsonOutput
 	w               *jsonwriter.Writer
 	featureKinds    map[EStructuralFeature]jsonFeatureKind
 	errorFn         func(diagnostic EDiagnostic)
@@ -19,8 +34,10 @@ type JSONEncoder struct {
 }
 
 func NewJSONEncoder(resource EResource, w io.Writer, options map[string]interface{}) *JSONEncoder {
+	output := &jsonOutput{w: w}
 	e := &JSONEncoder{
-		w:            jsonwriter.New(w),
+		output:       output,
+		w:            jsonwriter.New(output),
 		resource:     resource,
 		featureKinds: map[EStructuralFeature]jsonFeatureKind{},
 	}
@@ -54,6 +71,13 @@ func (e *JSONEncoder) encodeTopObject(eObject EObject) {
 	e.w.RootObject(func() {
 		e.encodeObject(eObject)
 	})
+	if err := e.output.err; err != nil {
+		resourcePath := ""
+		if uri := e.resource.GetURI(); uri != nil {
+			resourcePath = uri.String()
+		}
+		e.errorFn(NewEDiagnosticImpl(err.Error(), resourcePath, 0, 0))
+	}
 }
 
 func (e *JSONEncoder) encodeObject(eObject EObject) {
-- 
2.43.0


From 0066437c9012169f7a90c73fe910fc70135c759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 17/53] fix: give the parameters of EObject.eSet and
 EObject.eUnset their types

---
 ecore/ecorepackage_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/ecorepackage_impl.go b/ecore/ecorepackage_impl.go
index f519d7b..986f974 100644
--- a/ecore/ecorepackage_impl.go
+++ b/ecore/ecorepackage_impl.go
@@ -1338,8 +1338,8 @@ func (p *EcorePackageImpl) initializePackageContents(_ EcoreFactory) {
 	{
 		operation := p.GetEObject_ESet_EStructuralFeature_EJavaObject()
 		p.InitEOperation(operation, nil, "eSet", 0, 1, true, true)
-		p.AddEParameter(operation, nil, "feature", 0, 1, true, true)
-		p.AddEParameter(operation, nil, "newValue", 0, 1, true, true)
+		p.AddEParameter(operation, p.GetEStructuralFeature(), "feature", 0, 1, true, true)
+		p.AddEParameter(operation, p.GetEJavaObject(), "newValue", 0, 1, true, true)
 	}
 	{
 		operation := p.GetEObject_EIsSet_EStructuralFeature()
@@ -1349,7 +1349,7 @@ func (p *EcorePackageImpl) initializePackageContents(_ EcoreFactory) {
 	{
 		operation := p.GetEObject_EUnset_EStructuralFeature()
 		p.InitEOperation(operation, nil, "eUnset", 0, 1, true, true)
-		p.AddEParameter(operation, nil, "feature", 0, 1, true, true)
+		p.AddEParameter(operation, p.GetEStructuralFeature(), "feature", 0, 1, true, true)
 	}
 	{
 		operation := p.GetEObject_EInvoke_EOperation_EEList()
-- 
2.43.0


From cc56dc50747dba9673712cb649661f136284ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 18/53] fix: convert byte array values to string in the generic
 factory

---
 ecore/efactory_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/efactory_ext.go b/ecore/efactory_ext.go
index 6560e81..c472c83 100644
--- a/ecore/efactory_ext.go
+++ b/ecore/efactory_ext.go
@@ -138,6 +138,9 @@ func (eFactory *EFactoryExt) ConvertToString(eDataType EDataType, instanceValue
 		return strconv.FormatBool(v)
 	case "string", "java.lang.String":
 		return instanceValue.(string)
+	case "byte[]", "[]byte":
+		v, _ := instanceValue.([]byte)
+		return string(v)
 	}
 
 	panic("ConvertToString not implemented")
-- 
2.43.0


From 6a54e2b3bc9671e7fd1f7f1ee95d3484d2cef17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 19/53] fix: keep the last position when a removal is merged
 into several removals

---
 ecore/abstractnotification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..833a172 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -113,7 +113,7 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index <= len(positions) {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
-- 
2.43.0


From feef2a31a15dcb1a682757900d968908aa9cfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 20/53] fix: report elements added in bulk at their position in
 the list

---
 ecore/basicelist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..f5dac23 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -72,11 +72,12 @@ func (list *BasicEList) doAdd(e any) {
 
 func (list *BasicEList) doAddAll(collection Collection) bool {
 	data := collection.ToArray()
+	size := len(list.data)
 	list.data = append(list.data, data...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
-		listCallbacks.DidAdd(i, element)
+		listCallbacks.DidAdd(size+i, element)
 	}
 	listCallbacks.DidChange()
 	return len(data) != 0
-- 
2.43.0


From 6ed5917a697b5633f59b4360becfe3b1a374b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 21/53] fix: report each element removed from a stored range

---
 ecore/estorelist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index 0774219..37a6df8 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -324,7 +324,7 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+				listCallbacks.DidRemove(fromIndex, object)
 			}
 			listCallbacks.DidChange()
 		} else {
-- 
2.43.0


From 72433d96e84bb63c00d5b094e71b4ecc5fe6e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 22/53] fix: notify and detach with the object's own identity
 in generated setters

---
 ecore/eannotation_impl.go   | 2 +-
 ecore/efactory_impl.go      | 2 +-
 ecore/egenerictype_impl.go  | 8 ++++----
 ecore/epackage_impl.go      | 2 +-
 ecore/ereference_impl.go    | 2 +-
 ecore/etypedelement_impl.go | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b24b41a..799d2f0 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -102,7 +102,7 @@ func (e *EAnnotationImpl) SetEModelElement(newEModelElement EModelElement) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EANNOTATION__EMODEL_ELEMENT, newEModelElement, newEModelElement, NO_INDEX))
 	}
 }
 
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index e080106..bc8d194 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -82,7 +82,7 @@ func (e *EFactoryImpl) SetEPackage(newEPackage EPackage) {
 			notifications.Dispatch()
 		}
 	} else if e.ENotificationRequired() {
-		e.ENotify(NewNotificationByFeatureID(e, SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
+		e.ENotify(NewNotificationByFeatureID(e.AsEObject(), SET, EFACTORY__EPACKAGE, newEPackage, newEPackage, NO_INDEX))
 	}
 }
 
diff --git a/ecore/egenerictype_impl.go b/ecore/egenerictype_impl.go
index 30509fa..b606be5 100644
--- a/ecore/egenerictype_impl.go
+++ b/ecore/egenerictype_impl.go
@@ -78,7 +78,7 @@ func (e *EGenericTypeImpl) GetEClassifier() EClassifier {
 		e.eClassifier = newEClassifier
 		if newEClassifier != oldEClassifier {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ECLASSIFIER, oldEClassifier, newEClassifier, NO_INDEX))
 			}
 		}
 	}
@@ -108,7 +108,7 @@ func (e *EGenericTypeImpl) SetELowerBound(newELowerBound EGenericType) {
 	if newELowerBound != e.eLowerBound {
 		var notifications ENotificationChain
 		if oldELowerBoundInternal, _ := e.eLowerBound.(EObjectInternal); oldELowerBoundInternal != nil {
-			notifications = oldELowerBoundInternal.EInverseRemove(e, EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__ELOWER_BOUND, notifications)
+			notifications = oldELowerBoundInternal.EInverseRemove(e.AsEObject(), EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__ELOWER_BOUND, notifications)
 		}
 		if newELowerBoundInternal, _ := newELowerBound.(EObjectInternal); newELowerBoundInternal != nil {
 			notifications = newELowerBoundInternal.EInverseAdd(e.AsEObject(), EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__ELOWER_BOUND, notifications)
@@ -143,7 +143,7 @@ func (e *EGenericTypeImpl) GetERawType() EClassifier {
 		e.eRawType = newERawType
 		if newERawType != oldERawType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EGENERIC_TYPE__ERAW_TYPE, oldERawType, newERawType, NO_INDEX))
 			}
 		}
 	}
@@ -186,7 +186,7 @@ func (e *EGenericTypeImpl) SetEUpperBound(newEUpperBound EGenericType) {
 	if newEUpperBound != e.eUpperBound {
 		var notifications ENotificationChain
 		if oldEUpperBoundInternal, _ := e.eUpperBound.(EObjectInternal); oldEUpperBoundInternal != nil {
-			notifications = oldEUpperBoundInternal.EInverseRemove(e, EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__EUPPER_BOUND, notifications)
+			notifications = oldEUpperBoundInternal.EInverseRemove(e.AsEObject(), EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__EUPPER_BOUND, notifications)
 		}
 		if newEUpperBoundInternal, _ := newEUpperBound.(EObjectInternal); newEUpperBoundInternal != nil {
 			notifications = newEUpperBoundInternal.EInverseAdd(e.AsEObject(), EOPPOSITE_FEATURE_BASE-EGENERIC_TYPE__EUPPER_BOUND, notifications)
diff --git a/ecore/epackage_impl.go b/ecore/epackage_impl.go
index 61e2f0a..ebbaf48 100644
--- a/ecore/epackage_impl.go
+++ b/ecore/epackage_impl.go
@@ -87,7 +87,7 @@ func (e *EPackageImpl) SetEFactoryInstance(newEFactoryInstance EFactory) {
 	if newEFactoryInstance != e.eFactoryInstance {
 		var notifications ENotificationChain
 		if oldEFactoryInstanceInternal, _ := e.eFactoryInstance.(EObjectInternal); oldEFactoryInstanceInternal != nil {
-			notifications = oldEFactoryInstanceInternal.EInverseRemove(e, EFACTORY__EPACKAGE, notifications)
+			notifications = oldEFactoryInstanceInternal.EInverseRemove(e.AsEObject(), EFACTORY__EPACKAGE, notifications)
 		}
 		if newEFactoryInstanceInternal, _ := newEFactoryInstance.(EObjectInternal); newEFactoryInstanceInternal != nil {
 			notifications = newEFactoryInstanceInternal.EInverseAdd(e.AsEObject(), EFACTORY__EPACKAGE, notifications)
diff --git a/ecore/ereference_impl.go b/ecore/ereference_impl.go
index fc3f252..a5c0aaa 100644
--- a/ecore/ereference_impl.go
+++ b/ecore/ereference_impl.go
@@ -79,7 +79,7 @@ func (e *EReferenceImpl) GetEOpposite() EReference {
 		e.eOpposite = newEOpposite
 		if newEOpposite != oldEOpposite {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, EREFERENCE__EOPPOSITE, oldEOpposite, newEOpposite, NO_INDEX))
 			}
 		}
 	}
diff --git a/ecore/etypedelement_impl.go b/ecore/etypedelement_impl.go
index bd8b0c8..2faaad9 100644
--- a/ecore/etypedelement_impl.go
+++ b/ecore/etypedelement_impl.go
@@ -66,7 +66,7 @@ func (e *ETypedElementImpl) GetEType() EClassifier {
 		e.eType = newEType
 		if newEType != oldEType {
 			if e.ENotificationRequired() {
-				e.ENotify(NewNotificationByFeatureID(e, RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
+				e.ENotify(NewNotificationByFeatureID(e.AsEObject(), RESOLVE, ETYPED_ELEMENT__ETYPE, oldEType, newEType, NO_INDEX))
 			}
 		}
 	}
-- 
2.43.0


From 0e188069f647439deca2297bbce7a97eeaae37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 23/53] fix: compare and register extended objects by their own
 identity

---
 ecore/eclass_ext.go        |   3 +-
 ecore/econtentadapter.go   |   6 +--
 ecore/ecorepackage_impl.go | 106 ++++++++++++++++++-------------------
 ecore/edatatype_ext.go     |   2 +-
 ecore/epackage_ext.go      |   2 +-
 5 files changed, 60 insertions(+), 59 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0eedd8c..189529d 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -123,7 +123,8 @@ func (eClass *EClassExt) Initialize() {
 }
 
 func (eClass *EClassExt) IsSuperTypeOf(someClass EClass) bool {
-	return someClass == eClass || (someClass != nil && someClass.GetEAllSuperTypes().Contains(eClass))
+	self := eClass.asEClass()
+	return someClass == self || (someClass != nil && someClass.GetEAllSuperTypes().Contains(self))
 }
 
 func (eClass *EClassExt) GetFeatureCount() int {
diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..00f135e 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -119,7 +119,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
@@ -178,12 +178,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
diff --git a/ecore/ecorepackage_impl.go b/ecore/ecorepackage_impl.go
index 986f974..b252de2 100644
--- a/ecore/ecorepackage_impl.go
+++ b/ecore/ecorepackage_impl.go
@@ -945,18 +945,18 @@ func (p *EcorePackageImpl) GetETreeIterator() EDataType {
 
 func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 
-	p.eAnnotation = ecoreFactory.CreateEClassFromContainerAndClassID(p, EANNOTATION)
+	p.eAnnotation = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EANNOTATION)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eAnnotation, EANNOTATION__SOURCE)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eAnnotation, EANNOTATION__DETAILS)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eAnnotation, EANNOTATION__EMODEL_ELEMENT)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eAnnotation, EANNOTATION__CONTENTS)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eAnnotation, EANNOTATION__REFERENCES)
 
-	p.eAttribute = ecoreFactory.CreateEClassFromContainerAndClassID(p, EATTRIBUTE)
+	p.eAttribute = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EATTRIBUTE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eAttribute, EATTRIBUTE__ID)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eAttribute, EATTRIBUTE__EATTRIBUTE_TYPE)
 
-	p.eClass = ecoreFactory.CreateEClassFromContainerAndClassID(p, ECLASS)
+	p.eClass = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ECLASS)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClass, ECLASS__ABSTRACT)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClass, ECLASS__INTERFACE)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eClass, ECLASS__ESTRUCTURAL_FEATURES)
@@ -985,7 +985,7 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eClass, ECLASS__GET_OVERRIDE_EOPERATION)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eClass, ECLASS__GET_FEATURE_TYPE_ESTRUCTURALFEATURE)
 
-	p.eClassifier = ecoreFactory.CreateEClassFromContainerAndClassID(p, ECLASSIFIER)
+	p.eClassifier = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ECLASSIFIER)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClassifier, ECLASSIFIER__INSTANCE_CLASS_NAME)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClassifier, ECLASSIFIER__INSTANCE_CLASS)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClassifier, ECLASSIFIER__INSTANCE_TYPE_NAME)
@@ -994,28 +994,28 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eClassifier, ECLASSIFIER__CLASSIFIER_ID)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eClassifier, ECLASSIFIER__IS_INSTANCE_EJAVAOBJECT)
 
-	p.eDataType = ecoreFactory.CreateEClassFromContainerAndClassID(p, EDATA_TYPE)
+	p.eDataType = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EDATA_TYPE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eDataType, EDATA_TYPE__SERIALIZABLE)
 
-	p.eEnum = ecoreFactory.CreateEClassFromContainerAndClassID(p, EENUM)
+	p.eEnum = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EENUM)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eEnum, EENUM__ELITERALS)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eEnum, EENUM__GET_EENUM_LITERAL_ESTRING)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eEnum, EENUM__GET_EENUM_LITERAL_EINT)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eEnum, EENUM__GET_EENUM_LITERAL_BY_LITERAL_ESTRING)
 
-	p.eEnumLiteral = ecoreFactory.CreateEClassFromContainerAndClassID(p, EENUM_LITERAL)
+	p.eEnumLiteral = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EENUM_LITERAL)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eEnumLiteral, EENUM_LITERAL__VALUE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eEnumLiteral, EENUM_LITERAL__INSTANCE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eEnumLiteral, EENUM_LITERAL__LITERAL)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eEnumLiteral, EENUM_LITERAL__EENUM)
 
-	p.eFactory = ecoreFactory.CreateEClassFromContainerAndClassID(p, EFACTORY)
+	p.eFactory = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EFACTORY)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eFactory, EFACTORY__EPACKAGE)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eFactory, EFACTORY__CREATE_ECLASS)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eFactory, EFACTORY__CREATE_FROM_STRING_EDATATYPE_ESTRING)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eFactory, EFACTORY__CONVERT_TO_STRING_EDATATYPE_EJAVAOBJECT)
 
-	p.eGenericType = ecoreFactory.CreateEClassFromContainerAndClassID(p, EGENERIC_TYPE)
+	p.eGenericType = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EGENERIC_TYPE)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eGenericType, EGENERIC_TYPE__EUPPER_BOUND)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eGenericType, EGENERIC_TYPE__ETYPE_ARGUMENTS)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eGenericType, EGENERIC_TYPE__ERAW_TYPE)
@@ -1024,14 +1024,14 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eGenericType, EGENERIC_TYPE__ECLASSIFIER)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eGenericType, EGENERIC_TYPE__IS_INSTANCE_EJAVAOBJECT)
 
-	p.eModelElement = ecoreFactory.CreateEClassFromContainerAndClassID(p, EMODEL_ELEMENT)
+	p.eModelElement = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EMODEL_ELEMENT)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eModelElement, EMODEL_ELEMENT__EANNOTATIONS)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eModelElement, EMODEL_ELEMENT__GET_EANNOTATION_ESTRING)
 
-	p.eNamedElement = ecoreFactory.CreateEClassFromContainerAndClassID(p, ENAMED_ELEMENT)
+	p.eNamedElement = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ENAMED_ELEMENT)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eNamedElement, ENAMED_ELEMENT__NAME)
 
-	p.eObject = ecoreFactory.CreateEClassFromContainerAndClassID(p, EOBJECT)
+	p.eObject = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EOBJECT)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eObject, EOBJECT__ECLASS)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eObject, EOBJECT__EIS_PROXY)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eObject, EOBJECT__ERESOURCE)
@@ -1048,14 +1048,14 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eObject, EOBJECT__EUNSET_ESTRUCTURALFEATURE)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eObject, EOBJECT__EINVOKE_EOPERATION_EELIST)
 
-	p.eOperation = ecoreFactory.CreateEClassFromContainerAndClassID(p, EOPERATION)
+	p.eOperation = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EOPERATION)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eOperation, EOPERATION__ECONTAINING_CLASS)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eOperation, EOPERATION__EPARAMETERS)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eOperation, EOPERATION__EEXCEPTIONS)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eOperation, EOPERATION__OPERATION_ID)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eOperation, EOPERATION__IS_OVERRIDE_OF_EOPERATION)
 
-	p.ePackage = ecoreFactory.CreateEClassFromContainerAndClassID(p, EPACKAGE)
+	p.ePackage = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EPACKAGE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.ePackage, EPACKAGE__NS_URI)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.ePackage, EPACKAGE__NS_PREFIX)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.ePackage, EPACKAGE__EFACTORY_INSTANCE)
@@ -1064,10 +1064,10 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.ePackage, EPACKAGE__ESUPER_PACKAGE)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.ePackage, EPACKAGE__GET_ECLASSIFIER_ESTRING)
 
-	p.eParameter = ecoreFactory.CreateEClassFromContainerAndClassID(p, EPARAMETER)
+	p.eParameter = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EPARAMETER)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eParameter, EPARAMETER__EOPERATION)
 
-	p.eReference = ecoreFactory.CreateEClassFromContainerAndClassID(p, EREFERENCE)
+	p.eReference = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), EREFERENCE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eReference, EREFERENCE__CONTAINMENT)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eReference, EREFERENCE__CONTAINER)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eReference, EREFERENCE__RESOLVE_PROXIES)
@@ -1075,11 +1075,11 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eReference, EREFERENCE__EREFERENCE_TYPE)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eReference, EREFERENCE__EKEYS)
 
-	p.eStringToStringMapEntry = ecoreFactory.CreateEClassFromContainerAndClassID(p, ESTRING_TO_STRING_MAP_ENTRY)
+	p.eStringToStringMapEntry = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ESTRING_TO_STRING_MAP_ENTRY)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStringToStringMapEntry, ESTRING_TO_STRING_MAP_ENTRY__KEY)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStringToStringMapEntry, ESTRING_TO_STRING_MAP_ENTRY__VALUE)
 
-	p.eStructuralFeature = ecoreFactory.CreateEClassFromContainerAndClassID(p, ESTRUCTURAL_FEATURE)
+	p.eStructuralFeature = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ESTRUCTURAL_FEATURE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStructuralFeature, ESTRUCTURAL_FEATURE__CHANGEABLE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStructuralFeature, ESTRUCTURAL_FEATURE__VOLATILE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStructuralFeature, ESTRUCTURAL_FEATURE__TRANSIENT)
@@ -1091,10 +1091,10 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eStructuralFeature, ESTRUCTURAL_FEATURE__FEATURE_ID)
 	ecoreFactory.CreateEOperationFromContainerAndClassID(p.eStructuralFeature, ESTRUCTURAL_FEATURE__GET_CONTAINER_CLASS)
 
-	p.eTypeParameter = ecoreFactory.CreateEClassFromContainerAndClassID(p, ETYPE_PARAMETER)
+	p.eTypeParameter = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ETYPE_PARAMETER)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eTypeParameter, ETYPE_PARAMETER__EBOUNDS)
 
-	p.eTypedElement = ecoreFactory.CreateEClassFromContainerAndClassID(p, ETYPED_ELEMENT)
+	p.eTypedElement = ecoreFactory.CreateEClassFromContainerAndClassID(p.asEPackage(), ETYPED_ELEMENT)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eTypedElement, ETYPED_ELEMENT__ORDERED)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eTypedElement, ETYPED_ELEMENT__UNIQUE)
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eTypedElement, ETYPED_ELEMENT__LOWER_BOUND)
@@ -1103,39 +1103,39 @@ func (p *EcorePackageImpl) createPackageContents(ecoreFactory EcoreFactory) {
 	ecoreFactory.CreateEAttributeFromContainerAndClassID(p.eTypedElement, ETYPED_ELEMENT__REQUIRED)
 	ecoreFactory.CreateEReferenceFromContainerAndClassID(p.eTypedElement, ETYPED_ELEMENT__ETYPE)
 
-	p.eBigDecimal = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBIG_DECIMAL)
-	p.eBigInteger = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBIG_INTEGER)
-	p.eBoolean = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBOOLEAN)
-	p.eBooleanObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBOOLEAN_OBJECT)
-	p.eByte = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBYTE)
-	p.eByteArray = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBYTE_ARRAY)
-	p.eByteObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EBYTE_OBJECT)
-	p.eChar = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ECHAR)
-	p.eCharacterObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ECHARACTER_OBJECT)
-	p.eDate = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EDATE)
-	p.eDiagnosticChain = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EDIAGNOSTIC_CHAIN)
-	p.eDouble = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EDOUBLE)
-	p.eDoubleObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EDOUBLE_OBJECT)
-	p.eEList = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EE_LIST)
-	p.eEnumerator = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EENUMERATOR)
-	p.eFeatureMap = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EFEATURE_MAP)
-	p.eFeatureMapEntry = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EFEATURE_MAP_ENTRY)
-	p.eFloat = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EFLOAT)
-	p.eFloatObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EFLOAT_OBJECT)
-	p.eInt = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EINT)
-	p.eIntegerObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EINTEGER_OBJECT)
-	p.eInvocationTargetException = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EINVOCATION_TARGET_EXCEPTION)
-	p.eJavaClass = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EJAVA_CLASS)
-	p.eJavaObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EJAVA_OBJECT)
-	p.eLong = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ELONG)
-	p.eLongObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ELONG_OBJECT)
-	p.eMap = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, EMAP)
-	p.eResource = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ERESOURCE)
-	p.eResourceSet = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ERESOURCE_SET)
-	p.eShort = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ESHORT)
-	p.eShortObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ESHORT_OBJECT)
-	p.eString = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ESTRING)
-	p.eTreeIterator = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p, ETREE_ITERATOR)
+	p.eBigDecimal = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBIG_DECIMAL)
+	p.eBigInteger = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBIG_INTEGER)
+	p.eBoolean = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBOOLEAN)
+	p.eBooleanObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBOOLEAN_OBJECT)
+	p.eByte = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBYTE)
+	p.eByteArray = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBYTE_ARRAY)
+	p.eByteObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EBYTE_OBJECT)
+	p.eChar = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ECHAR)
+	p.eCharacterObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ECHARACTER_OBJECT)
+	p.eDate = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EDATE)
+	p.eDiagnosticChain = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EDIAGNOSTIC_CHAIN)
+	p.eDouble = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EDOUBLE)
+	p.eDoubleObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EDOUBLE_OBJECT)
+	p.eEList = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EE_LIST)
+	p.eEnumerator = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EENUMERATOR)
+	p.eFeatureMap = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EFEATURE_MAP)
+	p.eFeatureMapEntry = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EFEATURE_MAP_ENTRY)
+	p.eFloat = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EFLOAT)
+	p.eFloatObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EFLOAT_OBJECT)
+	p.eInt = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EINT)
+	p.eIntegerObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EINTEGER_OBJECT)
+	p.eInvocationTargetException = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EINVOCATION_TARGET_EXCEPTION)
+	p.eJavaClass = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EJAVA_CLASS)
+	p.eJavaObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EJAVA_OBJECT)
+	p.eLong = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ELONG)
+	p.eLongObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ELONG_OBJECT)
+	p.eMap = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), EMAP)
+	p.eResource = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ERESOURCE)
+	p.eResourceSet = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ERESOURCE_SET)
+	p.eShort = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ESHORT)
+	p.eShortObject = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ESHORT_OBJECT)
+	p.eString = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ESTRING)
+	p.eTreeIterator = ecoreFactory.CreateEDataTypeFromContainerAndClassID(p.asEPackage(), ETREE_ITERATOR)
 
 }
 
diff --git a/ecore/edatatype_ext.go b/ecore/edatatype_ext.go
index 59e093e..3a29315 100644
--- a/ecore/edatatype_ext.go
+++ b/ecore/edatatype_ext.go
@@ -38,7 +38,7 @@ func (eDataType *EDataTypeExt) SetDefaultValue(newDefaultValue any) {
 
 func (eDataType *EDataTypeExt) GetDefaultValue() any {
 	if !eDataType.defaultValueIsSet {
-		switch getInstanceTypeName(eDataType) {
+		switch getInstanceTypeName(eDataType.asEDataType()) {
 		case "float64", "java.lang.Double", "double":
 			return float64(0)
 		case "float32", "java.lang.Float", "float":
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index e224186..3571da2 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -74,7 +74,7 @@ func (pack *EPackageExt) CreateResource() EResource {
 		uri := NewURI(pack.GetNsURI())
 		resource = NewEResourceImpl()
 		resource.SetURI(uri)
-		resource.GetContents().Add(pack)
+		resource.GetContents().Add(pack.AsEObject())
 	}
 	return resource
 }
-- 
2.43.0


From adfcfbe0d126fa9acdf2bc27cc4026248f2b7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 24/53] fix: a list extended by others is its own unresolved
 view

---
 ecore/basiceobjectlist.go | 2 +-
 ecore/estorelist.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/basiceobjectlist.go b/ecore/basiceobjectlist.go
index ffcfddd..e0172c6 100644
--- a/ecore/basiceobjectlist.go
+++ b/ecore/basiceobjectlist.go
@@ -60,7 +60,7 @@ func (list *basicEObjectList) GetUnResolvedList() EList {
 	if list.proxies {
 		return newUnResolvedBasicEObjectList(list)
 	}
-	return list
+	return list.asEList()
 }
 
 func (list *basicEObjectList) RemoveAll(collection Collection) bool {
diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index 37a6df8..5fbd7d5 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -564,7 +564,7 @@ func (list *EStoreList) GetUnResolvedList() EList {
 	if list.object && list.proxies {
 		return newUnResolvedEStoreList(list)
 	}
-	return list
+	return list.asEList()
 }
 
 type unResolvedEStoreList struct {
-- 
2.43.0


From 5a10bffc07d18829d4bbe50894d2b4450218e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 25/53] fix: a move past the end does not damage the list

---
 ecore/basicelist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index f5dac23..c5c2e8c 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "strconv"
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -107,6 +109,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
 	object := list.data[oldIndex]
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
 			copy(list.data[newIndex+1:], list.data[newIndex:oldIndex])
-- 
2.43.0


From d53dcadf93188cdf9e5c3ce4a23f4d702dbb8990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 26/53] fix: reject positions out of range in
 SetWithNotification and contents lists

---
 ecore/basicenotifyinglist.go | 5 +++++
 ecore/econtentslist.go       | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ecore/basicenotifyinglist.go b/ecore/basicenotifyinglist.go
index b6ca2bb..f960b83 100644
--- a/ecore/basicenotifyinglist.go
+++ b/ecore/basicenotifyinglist.go
@@ -1,5 +1,7 @@
 package ecore
 
+import "strconv"
+
 type abstractENotifyingList interface {
 	ENotifyingList
 	abstractEList
@@ -168,6 +170,9 @@ func (list *BasicENotifyingList) RemoveWithNotification(object any, notification
 // SetWithNotification ...
 func (list *BasicENotifyingList) SetWithNotification(index int, object any, notifications ENotificationChain) ENotificationChain {
 	notifyingList := list.asAbstractENotifyingList()
+	if size := notifyingList.Size(); index < 0 || index >= size {
+		panic("Index out of bounds: index=" + strconv.Itoa(index) + " size=" + strconv.Itoa(size))
+	}
 	oldObject := notifyingList.performSet(index, object)
 	return list.createAndAddNotification(notifications, SET, oldObject, object, index)
 }
diff --git a/ecore/econtentslist.go b/ecore/econtentslist.go
index 8720061..5e19ff2 100644
--- a/ecore/econtentslist.go
+++ b/ecore/econtentslist.go
@@ -1,6 +1,9 @@
 package ecore
 
-import "iter"
+import (
+	"iter"
+	"strconv"
+)
 
 type eContentsList struct {
 	emptyImmutableEList
@@ -87,6 +90,9 @@ func newEContentsList(o EObject, features EList, resolve bool) *eContentsList {
 
 // Get an element of the array
 func (l *eContentsList) Get(index int) any {
+	if size := l.Size(); index < 0 || index >= size {
+		panic("Index out of bounds: index=" + strconv.Itoa(index) + " size=" + strconv.Itoa(size))
+	}
 	it := l.Iterator()
 	for range index {
 		it.Next()
-- 
2.43.0


From 14e80f66a79c60be9880d0dc00c5935e3ffc3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 27/53] fix: remove every element already in the list from
 those added in bulk to a unique list

---
 ecore/abstractelist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..79e8558 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,7 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From 6243771b350ba8af2814efd4e28f9e6f1609419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 28/53] fix: identifier managers drop the entry of the object
 that had a reused identifier

---
 ecore/eobjectidmanager_impl.go | 7 +++++++
 ecore/uniqueidmanager.go       | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..1262ff2 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -33,6 +33,10 @@ func (m *EObjectIDManagerImpl) Clear() {
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
+		m.UnRegister(eObject)
+		if previous, isPrevious := m.idToObject[id]; isPrevious {
+			delete(m.objectToID, previous)
+		}
 		m.idToObject[id] = eObject
 		m.objectToID[eObject] = id
 	}
@@ -47,6 +51,9 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 
 		oldID := m.objectToID[eObject]
 		if len(newID) > 0 {
+			if previous, isPrevious := m.idToObject[newID]; isPrevious {
+				delete(m.objectToID, previous)
+			}
 			m.objectToID[eObject] = newID
 		} else {
 			delete(m.objectToID, eObject)
diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..1468c50 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -47,6 +47,9 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 	}
 
 	if m.isValidID(newID) {
+		if previous, isPrevious := m.idToObject[newID]; isPrevious {
+			delete(m.objectToID, previous)
+		}
 		m.setID(newID)
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
-- 
2.43.0


From bac241fa6f9101306758b7d783f8777cd582fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 29/53] fix: XMLEncoder declares the xsi prefix of the nil
 marker it writes

---
 ecore/xmlencoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..fbb4366 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -434,6 +434,8 @@ func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeatur
 
 func (s *XMLEncoder) saveNil(_ EObject, eFeature EStructuralFeature) {
 	s.str.addNil(s.getFeatureQName(eFeature))
+	s.uriToPrefixes[xsiURI] = []string{xsiNS}
+	s.prefixesToURI[xsiNS] = xsiURI
 }
 
 func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFeature) {
-- 
2.43.0


From fb8ac60f101b2f3ad735d0baad3de7e938bbd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 30/53] fix: looking for a free namespace prefix ends when two
 numbered ones are taken

---
 ecore/xmldecoder.go | 2 +-
 ecore/xmlencoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index fd5f3c6..0072317 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -283,7 +283,7 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
 		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)] {
 			index++
 		}
 		prefix += "_" + fmt.Sprintf("%d", index)
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index fbb4366..c83c078 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -721,7 +721,7 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
 				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
+				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)] {
 					index++
 				}
 				nsPrefix += "_" + fmt.Sprintf("%d", index)
-- 
2.43.0


From 508df9fe0c0bc07fcefec02bbb89cb884d3b4dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 31/53] fix: XMLEncoder asks for a next element before taking
 it

---
 ecore/xmlencoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index c83c078..7869117 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -408,7 +408,7 @@ func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeatur
 	l := eObject.EGetResolve(eFeature, false).(EList)
 	failure := false
 	var buffer strings.Builder
-	for it := l.Iterator(); ; {
+	for it := l.Iterator(); it.HasNext(); {
 		value, _ := it.Next().(EObject)
 		if value != nil {
 			id := s.getHRef(value)
@@ -525,7 +525,7 @@ func (s *XMLEncoder) saveIDRefMany(eObject EObject, eFeature EStructuralFeature)
 	l := eObject.EGetResolve(eFeature, false).(EList)
 	failure := false
 	var buffer strings.Builder
-	for it := l.Iterator(); ; {
+	for it := l.Iterator(); it.HasNext(); {
 		value, _ := it.Next().(EObject)
 		if value != nil {
 			id := s.getIDRef(value)
-- 
2.43.0


From e2a2a8c0c4aae92eb88949944b2583a5c82bc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 32/53] fix: XMLEncoder escapes every attribute value and every
 element content

---
 ecore/xmlencoder.go | 4 +---
 ecore/xmlstring.go  | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 7869117..2391954 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -14,8 +14,6 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"golang.org/x/net/html"
 )
 
 type xmlSaveFeatureKind int
@@ -365,7 +363,7 @@ func (s *XMLEncoder) saveDataTypeSingle(eObject EObject, eFeature EStructuralFea
 	val := eObject.EGetResolve(eFeature, false)
 	str, ok := s.getDataType(val, eFeature, true)
 	if ok {
-		s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(str))
+		s.str.addAttribute(s.getFeatureQName(eFeature), str)
 	}
 }
 
diff --git a/ecore/xmlstring.go b/ecore/xmlstring.go
index bfeadfc..9b3cfc7 100644
--- a/ecore/xmlstring.go
+++ b/ecore/xmlstring.go
@@ -3,6 +3,8 @@ package ecore
 import (
 	"io"
 	"strings"
+
+	"golang.org/x/net/html"
 )
 
 type xmlStringSegment struct {
@@ -132,7 +134,7 @@ func (s *xmlString) startAttribute(name string) {
 }
 
 func (s *xmlString) addAttributeContent(content string) {
-	s.add(content)
+	s.add(html.EscapeString(content))
 }
 
 func (s *xmlString) endAttribute() {
@@ -169,7 +171,7 @@ func (s *xmlString) addContent(name string, content string) {
 	s.add("<")
 	s.add(name)
 	s.add(">")
-	s.add(content)
+	s.add(html.EscapeString(content))
 	s.add("</")
 	s.depth--
 	s.add(name)
-- 
2.43.0


From 906d5268b24e851b16745c7a9e383109f6cddbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 33/53] fix: JSONEncoder escapes the values of many-valued
 attributes as it does single ones

---
 ecore/jsonencoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index 4120e16..102b3ab 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -143,7 +143,7 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 			for it := l.Iterator(); it.HasNext(); {
 				str, ok := e.getData(it.Next(), eFeature)
 				if ok {
-					e.w.Value(str)
+					e.w.RawValue([]byte(jsonEscape(str)))
 				}
 			}
 		})
-- 
2.43.0


From 806e80cd3c816be2558408a175cb64c555c42952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 34/53] fix: SQLEncoder saves every root object of the resource

---
 ecore/sqlencoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 491735c..39d757a 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -905,8 +905,8 @@ func (e *SQLEncoder) EncodeResource() {
 	}
 
 	// encode contents into db
-	if contents := e.resource.GetContents(); !contents.Empty() {
-		object := contents.Get(0).(EObject)
+	for it := e.resource.GetContents().Iterator(); it.HasNext(); {
+		object := it.Next().(EObject)
 		if err := e.encodeContent(object); err != nil {
 			e.addError(err)
 			return
-- 
2.43.0


From c0f4cdce6fe793be6cc85bccea586d54ce034f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 35/53] fix: XMLDecoder reads the values of a many-valued
 attribute given as an XML attribute

---
 ecore/xmldecoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 0072317..d23cc46 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -466,6 +466,10 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		eList := eObject.EGetResolve(eFeature, false).(EList)
 		if position == -2 {
+			// xml attribute: list of values separated by spaces
+			for _, token := range strings.Fields(value.(string)) {
+				eList.Add(eFactory.CreateFromString(eDataType, token))
+			}
 		} else if value == nil {
 			eList.Add(nil)
 		} else {
-- 
2.43.0


From 45045e8f0e81954e190ba3412e765d295337b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 36/53] fix: XMLDecoder keeps its object and type stacks in
 balance for unknown elements, types and cross references

---
 ecore/xmldecoder.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index d23cc46..53a8a6a 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -293,7 +293,7 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 }
 
 func (l *XMLDecoder) processElement(space string, local string) {
-	if len(l.objects) == 0 {
+	if l.isTopElement() {
 		eObject := l.createTopObject(space, local)
 		if eObject != nil {
 			if l.deferred != nil {
@@ -318,10 +318,22 @@ func (l *XMLDecoder) processObject(eObject EObject) {
 		l.objects = append(l.objects, eObject)
 		l.types = append(l.types, load_object_type)
 	} else {
+		// each element has an entry in both stacks
+		l.objects = append(l.objects, nil)
 		l.types = append(l.types, load_error_type)
 	}
 }
 
+// isTopElement returns true when the current element has no enclosing object
+func (l *XMLDecoder) isTopElement() bool {
+	for _, object := range l.objects {
+		if object != nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 	eFactory := l.getFactoryForSpace(space)
 	if eFactory != nil {
@@ -332,7 +344,7 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 			eObject := l.createObjectWithFactory(eFactory, eClass, false)
 			l.processObject(eObject)
 			l.handleFeature(space, local)
-			if l.isSuppressDocumentRoot {
+			if l.isSuppressDocumentRoot && l.objects[len(l.objects)-1] != nil {
 				// remove document root from object list
 				l.objects = l.objects[1:]
 				// remove type info from type list
@@ -357,6 +369,7 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 	} else {
 		prefix, _ := l.namespaces.getPrefix(space)
 		l.handleUnknownPackage(prefix, space)
+		l.processObject(nil)
 		return nil
 	}
 }
@@ -401,6 +414,7 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	eFactory := l.getFactoryForSpace(space)
 	if eFactory == nil {
 		l.handleUnknownPackage(prefix, space)
+		l.processObject(nil)
 		return nil
 	}
 
@@ -435,10 +449,11 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 				}
 			}
 		} else {
+			l.processObject(nil)
 			l.handleUnknownFeature(local)
 		}
 	} else {
-		l.types = append(l.types, load_error_type)
+		l.processObject(nil)
 		l.handleUnknownFeature(local)
 	}
 
@@ -610,6 +625,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 					l.handleProxy(eProxy, id)
 				}
 				l.objects = l.objects[:len(l.objects)-1]
+				l.types = l.types[:len(l.types)-1]
 				qName = ""
 				position++
 				continue
-- 
2.43.0


From 1e75fe5e2d2b8015c558c2e0070ed8816a73e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 37/53] fix: xmlNamespaces.declarePrefix reuses the slot of the
 prefix it declares

---
 ecore/xmlnamespaces.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/xmlnamespaces.go b/ecore/xmlnamespaces.go
index 3ffae10..c018405 100644
--- a/ecore/xmlnamespaces.go
+++ b/ecore/xmlnamespaces.go
@@ -53,7 +53,7 @@ func (n *xmlNamespaces) declarePrefix(prefix string, uri string) bool {
 	if n.namespacesSize > len(n.namespaces) {
 		n.namespaces = append(n.namespaces, pair{prefix, uri})
 	} else {
-		n.namespaces[n.namespacesSize] = pair{prefix, uri}
+		n.namespaces[n.namespacesSize-1] = pair{prefix, uri}
 	}
 	return false
 }
-- 
2.43.0


From 27e4aa89346c05545eadb27181a3d9e1c0887314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 38/53] fix: quote every SQL identifier which is not a plain
 one

---
 ecore/sqldecoder.go |  4 ++--
 ecore/sqlequal.go   |  2 +-
 ecore/sqlschema.go  | 17 ++++++++++-------
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index dcf0017..bae6b31 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -1109,8 +1109,8 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 }
 
 func (d *SQLDecoder) decodeTableFeature(table *sqlTable, tableFeature *sqlFeatureSchema) error {
-	column := sqlEscapeIdentifier(table.columns[len(table.columns)-1].columnName)
-	query := table.selectQuery([]string{table.keyName(), column}, "", table.keyName()+" ASC, idx ASC")
+	column := table.columns[len(table.columns)-1].columnName
+	query := table.selectQuery([]string{table.key.columnName, column}, "", table.keyName()+" ASC, idx ASC")
 	feature := tableFeature.feature
 	values := []any{}
 	var id int64 = -1
diff --git a/ecore/sqlequal.go b/ecore/sqlequal.go
index 02f518e..070fa6b 100644
--- a/ecore/sqlequal.go
+++ b/ecore/sqlequal.go
@@ -38,7 +38,7 @@ func getDBTables(conn *sqlite.Conn) (map[string]struct{}, error) {
 
 func getDBRows(conn *sqlite.Conn, table string) ([][]any, error) {
 	resultList := [][]any{}
-	if err := sqlitex.ExecuteTransient(conn, "SELECT * FROM '"+table+"'", &sqlitex.ExecOptions{
+	if err := sqlitex.ExecuteTransient(conn, "SELECT * FROM "+sqlEscapeIdentifier(table), &sqlitex.ExecOptions{
 		ResultFunc: func(stmt *sqlite.Stmt) error {
 			results := make([]any, stmt.ColumnCount())
 			for i := 0; i < stmt.ColumnCount(); i++ {
diff --git a/ecore/sqlschema.go b/ecore/sqlschema.go
index ed07373..dd399be 100644
--- a/ecore/sqlschema.go
+++ b/ecore/sqlschema.go
@@ -1,6 +1,7 @@
 package ecore
 
 import (
+	"regexp"
 	"strings"
 	"sync"
 )
@@ -176,13 +177,12 @@ func (t *sqlTable) createQuery() string {
 		if t.createIfNotExists {
 			tableQuery.WriteString("IF NOT EXISTS ")
 		}
-		tableQuery.WriteString("\"idx_")
-		tableQuery.WriteString(t.name)
+		indexName := "idx_" + t.name
 		for _, c := range index {
-			tableQuery.WriteString("_")
-			tableQuery.WriteString(c.columnName)
+			indexName += "_" + c.columnName
 		}
-		tableQuery.WriteString("\" ON ")
+		tableQuery.WriteString(sqlEscapeIdentifier(indexName))
+		tableQuery.WriteString(" ON ")
 		tableQuery.WriteString(sqlEscapeIdentifier(t.name))
 		tableQuery.WriteString("(")
 		for i, c := range index {
@@ -556,9 +556,12 @@ func isSqliteKeyWord(k string) bool {
 	return false
 }
 
+// an identifier which doesn't need to be quoted
+var sqlitePlainIdentifier = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+
 func sqlEscapeIdentifier(id string) string {
-	if id[0] == '.' || isSqliteKeyWord(id) {
-		return "\"" + id + "\""
+	if !sqlitePlainIdentifier.MatchString(id) || isSqliteKeyWord(id) {
+		return "\"" + strings.ReplaceAll(id, "\"", "\"\"") + "\""
 	}
 	return id
 }
-- 
2.43.0


From efa476b55621c65ef341f98cf69487d4a01bcf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 39/53] fix: JSONEncoder escapes references as it does the
 values of attributes

---
 ecore/jsonencoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index 102b3ab..af7feaf 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -99,7 +99,7 @@ func (e *JSONEncoder) encodeObject(eObject EObject) {
 
 func (e *JSONEncoder) encodeObjectReference(eObject EObject) {
 	e.w.KeyString("eClass", e.getClassName(eObject.EClass()))
-	e.w.KeyString("eRef", e.getReference(eObject))
+	e.w.KeyRaw("eRef", []byte(jsonEscape(e.getReference(eObject))))
 }
 
 func jsonEscape(i string) string {
-- 
2.43.0


From c2480dd4deedacd0d693c6d57fc475b3e91fcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 40/53] fix: sql codec keeps the sub-second part of dates

---
 ecore/sqlencoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/sqlencoder.go b/ecore/sqlencoder.go
index 39d757a..c710a7a 100644
--- a/ecore/sqlencoder.go
+++ b/ecore/sqlencoder.go
@@ -446,7 +446,7 @@ func (e *sqlEncoder) encodeFeatureValue(containerID int64, featureData *sqlEncod
 			return value, nil
 		case sfkDate:
 			t := value.(*time.Time)
-			return t.Format(time.RFC3339), nil
+			return t.Format(time.RFC3339Nano), nil
 		case sfkData, sfkDataList:
 			return featureData.factory.ConvertToString(featureData.dataType, value), nil
 		}
-- 
2.43.0


From c20d329b980a046f92a75782f7e1beed7f084a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 41/53] fix: sql decoder leaves features with null columns
 unset

---
 ecore/sqldecoder.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ecore/sqldecoder.go b/ecore/sqldecoder.go
index bae6b31..a7d08c8 100644
--- a/ecore/sqldecoder.go
+++ b/ecore/sqldecoder.go
@@ -436,7 +436,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkBool:
 		switch v := value.(type) {
 		case nil:
-			return false, nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return v == 1, nil
 		default:
@@ -445,7 +445,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkByte:
 		switch v := value.(type) {
 		case nil:
-			return byte(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return byte(v), nil
 		default:
@@ -454,7 +454,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkInt:
 		switch v := value.(type) {
 		case nil:
-			return 0, nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return int(v), nil
 		default:
@@ -463,7 +463,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkInt64:
 		switch v := value.(type) {
 		case nil:
-			return int64(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return v, nil
 		default:
@@ -472,7 +472,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkInt32:
 		switch v := value.(type) {
 		case nil:
-			return int32(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return int32(v), nil
 		default:
@@ -481,7 +481,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkInt16:
 		switch v := value.(type) {
 		case nil:
-			return int16(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case int64:
 			return int16(v), nil
 		default:
@@ -507,7 +507,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkString:
 		switch v := value.(type) {
 		case nil:
-			return "", nil
+			return featureData.feature.GetDefaultValue(), nil
 		case string:
 			return v, nil
 		default:
@@ -540,7 +540,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkFloat64:
 		switch v := value.(type) {
 		case nil:
-			return float64(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case float64:
 			return v, nil
 		default:
@@ -549,7 +549,7 @@ func (d *sqlDecoder) decodeFeatureValue(featureData *sqlFeatureSchema, value any
 	case sfkFloat32:
 		switch v := value.(type) {
 		case nil:
-			return float32(0), nil
+			return featureData.feature.GetDefaultValue(), nil
 		case float64:
 			return float32(v), nil
 		default:
@@ -1092,13 +1092,16 @@ func (d *SQLDecoder) decodeColumnFeatures(table *sqlTable, columnFeatures []*sql
 
 				// for each column
 				for i, columnData := range columnFeatures {
+					// value is nil, if column is not set
+					// so use default value
 					value := decodeAny(stmt, i+1)
+					if value == nil {
+						continue
+					}
 					columnValue, err := d.decodeFeatureValue(columnData, value)
 					if err != nil {
 						return err
 					}
-					// column value is nil, if column is not set
-					// so use default value
 					if columnValue != nil {
 						eObject.ESet(columnData.feature, columnValue)
 					}
-- 
2.43.0


From 041e591326473d8abd655533772495a7c695212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 42/53] fix: containment and cross reference features include
 inherited ones

---
 ecore/eclass_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 189529d..af911be 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -245,7 +245,7 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	if eClass.eContainmentFeatures == nil {
 		containments := []any{}
 		crossReferences := []any{}
-		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
+		for itFeature := eClass.eAllStructuralFeatures.Iterator(); itFeature.HasNext(); {
 			ref, isRef := itFeature.Next().(EReference)
 			if isRef {
 				if ref.IsContainment() {
-- 
2.43.0


From 8563de9561fb95722abaf02d87ab112fafd0f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 43/53] fix: copies keep inherited references

---
 ecore/deepcopy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..708a62f 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -90,7 +90,7 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 
 func (dC *deepCopy) copyReferences() {
 	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
-- 
2.43.0


From f86cf2bccade42c38daace1bed2e38a964fa316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 44/53] fix: equality compares inherited features

---
 ecore/deepequal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..02fdde9 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,8 +84,13 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
-		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		eFeature := it.Next().(EStructuralFeature)
+		// an object is equal to its copy wherever they are contained
+		if eReference, _ := eFeature.(EReference); eReference != nil && eReference.IsContainer() {
+			continue
+		}
+		if !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
 			return false
-- 
2.43.0


From 869a2610c494cc3dc7b47ab4419c171c0b679530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 45/53] fix: sql store finds the inherited features of an
 object

---
 ecore/sqlstore.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecore/sqlstore.go b/ecore/sqlstore.go
index ca63c1c..e3f6826 100644
--- a/ecore/sqlstore.go
+++ b/ecore/sqlstore.go
@@ -993,6 +993,11 @@ func (s *SQLStore) getFeatureSchema(object EObject, feature EStructuralFeature)
 	}
 	// retrieve feature schema
 	featureSchema := classSchema.getFeatureSchema(feature)
+	// inherited features are in the schemas of super types
+	for itSuper := class.GetEAllSuperTypes().Iterator(); featureSchema == nil && itSuper.HasNext(); {
+		superSchema := s.sqlDecoder.schema.getClassSchema(itSuper.Next().(EClass))
+		featureSchema = superSchema.getFeatureSchema(feature)
+	}
 	if featureSchema == nil {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
@@ -1019,6 +1024,14 @@ func (s *SQLStore) getEncoderFeatureData(object EObject, feature EStructuralFeat
 
 	// retrieve feature data
 	featureData, isFeatureData := classData.features.Get(feature)
+	// inherited features are in the data of super types
+	for itSuper := class.GetEAllSuperTypes().Iterator(); !isFeatureData && itSuper.HasNext(); {
+		superData, err := s.getEncoderClassData(itSuper.Next().(EClass))
+		if err != nil {
+			return nil, fmt.Errorf("class %s is unknown %w", class.GetName(), err)
+		}
+		featureData, isFeatureData = superData.features.Get(feature)
+	}
 	if !isFeatureData {
 		return nil, fmt.Errorf("feature %s is unknown", feature.GetName())
 	}
-- 
2.43.0


From 2022fbf608f59006678e3a9632c58fc977907522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:56 +0000
Subject: [PATCH 46/53] fix: EStoreMap.SetEStore kept the index of the former
 store

---
 ecore/estoremap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/estoremap.go b/ecore/estoremap.go
index 43d925c..e444d61 100644
--- a/ecore/estoremap.go
+++ b/ecore/estoremap.go
@@ -61,6 +61,9 @@ func (m *EStoreMap) GetEStore() EStore {
 
 func (m *EStoreMap) SetEStore(store EStore) {
 	m.store = store
+	// reset map data
+	m.doClear()
+	// set internal list store
 	sp := m.EList.(EStoreProvider)
 	sp.SetEStore(store)
 }
-- 
2.43.0


From 97458776dfc413f4a6accd10853b0410da8074b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 47/53] fix: adapters replaced in or cleared from an adapter
 list kept their target and were not told

---
 ecore/abstractenotifier.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index 8046305..5bcf564 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -56,6 +56,17 @@ func (l *notifierAdapterList) DidAdd(index int, elem any) {
 	elem.(EAdapter).SetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidSet(index int, newElem any, oldElem any) {
+	l.DidRemove(index, oldElem)
+	l.DidAdd(index, newElem)
+}
+
+func (l *notifierAdapterList) DidClear(oldElems []any) {
+	for i, elem := range oldElems {
+		l.DidRemove(i, elem)
+	}
+}
+
 func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	notifier := l.notifier.interfaces.(ENotifier)
 	adapter := elem.(EAdapter)
-- 
2.43.0


From d9456ceaf79ec1d857ba0469edbdb4741abcb703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:08 +0000
Subject: [PATCH 48/53] fix: binary decoder restores the order of a list that
 opposites already populated

---
 ecore/binarydecoder.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 91b9b96..7b358b6 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -299,37 +299,33 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 	if existingSize == 0 {
 		list.AddAll(NewImmutableEList(objects))
 	} else {
-		indices := make([]int, existingSize)
-		duplicateCount := 0
-		existingObjects := make([]any, existingSize)
-		copy(existingObjects, list.ToArray())
+		// move the objects which are already in the list at its beginning, in their order
+		indices := []int{}
+		newObjects := []any{}
+		existingObjects := append([]any{}, list.ToArray()...)
 	LOOP:
-		for i := 0; i < size; i++ {
-			o := objects[i]
-			count := duplicateCount
-			for j := 0; j < existingSize; j++ {
-				existing := existingObjects[j]
-				if existing == o {
-					if duplicateCount != count {
-						list.Move(count, duplicateCount)
+		for i, o := range objects {
+			count := len(indices)
+			for j, existing := range existingObjects {
+				if existing != nil && existing == o {
+					if count != len(indices) {
+						list.Move(count, len(indices))
 					}
-					indices[duplicateCount] = i
-					duplicateCount++
+					indices = append(indices, i)
 					existingObjects[j] = nil
 					continue LOOP
 				} else if existing != nil {
 					count++
 				}
 			}
-			objects[i-duplicateCount] = o
+			newObjects = append(newObjects, o)
 		}
 
-		size -= existingSize
-		list.AddAll(NewImmutableEList(objects))
-		for i := 0; i < existingSize; i++ {
-			newPosition := indices[i]
-			oldPosition := size + i
-			if newPosition != oldPosition {
+		// insert the others before them and put each one at its position
+		list.InsertAll(0, NewImmutableEList(newObjects))
+		size := list.Size() - existingSize
+		for i, newPosition := range indices {
+			if oldPosition := size + i; newPosition < oldPosition {
 				list.Move(oldPosition, newPosition)
 			}
 		}
-- 
2.43.0


From 7fadefe102e15b768a88f3975ac0741de0ae3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 49/53] fix: binary decoder validates ids, sizes and types
 before relying on them

---
 ecore/binarydecoder.go | 73 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 7b358b6..d7f6ab4 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -91,11 +91,17 @@ func (d *BinaryDecoder) DecodeResource() {
 	if size, err = d.decodeInt(); err != nil {
 		return
 	}
-	objects := make([]any, size)
+	if size < 0 {
+		err = fmt.Errorf("invalid number of objects '%v'", size)
+		return
+	}
+	objects := []any{}
 	for i := 0; i < size; i++ {
-		if objects[i], err = d.decodeObject(); err != nil {
+		var object EObject
+		if object, err = d.decodeObject(); err != nil {
 			return
 		}
+		objects = append(objects, object)
 	}
 
 	// add objects to resource
@@ -197,13 +203,19 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	case -1:
 		return nil, nil
 	default:
+		if id < 0 {
+			return nil, fmt.Errorf("invalid object id '%v'", id)
+		}
 		if len(d.objects) <= int(id) {
 			var eResult EObject
 			eClassData, err := d.decodeClass()
 			if err != nil {
 				return nil, err
 			}
-			eObject := eClassData.eFactory.Create(eClassData.eClass).(EObjectInternal)
+			eObject, isInternal := eClassData.eFactory.Create(eClassData.eClass).(EObjectInternal)
+			if !isInternal {
+				return nil, fmt.Errorf("unable to create an instance of '%v'", eClassData.eClass.GetName())
+			}
 			eResult = eObject
 			decodedInt, err := d.decodeInt()
 			if err != nil {
@@ -253,9 +265,12 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 			}
 
 			for featureID != -1 {
+				if featureID < 0 || featureID >= len(eClassData.featureData) {
+					return nil, fmt.Errorf("invalid feature id '%v' in '%v' EClass", featureID, eClassData.eClass.GetName())
+				}
 				eFeatureData := eClassData.featureData[featureID]
 				if eFeatureData == nil {
-					eFeatureData, err = d.newFeatureData(eClassData, featureID)
+					eFeatureData, err = d.newFeatureData(eClassData)
 					if err != nil {
 						return nil, err
 					}
@@ -284,13 +299,16 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 	if err != nil {
 		return err
 	}
-	objects := make([]any, size)
+	if size < 0 {
+		return fmt.Errorf("invalid number of objects '%v'", size)
+	}
+	objects := []any{}
 	for i := 0; i < size; i++ {
 		object, err := d.decodeObject()
 		if err != nil {
 			return err
 		}
-		objects[i] = object
+		objects = append(objects, object)
 	}
 
 	// If the list is empty, we need to add all the objects,
@@ -358,7 +376,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 	case bfkObjectContainmentList:
 		fallthrough
 	case bfkObjectContainmentListProxy:
-		l := eObject.EGetFromID(featureData.featureID, false).(EList)
+		l, isList := eObject.EGetFromID(featureData.featureID, false).(EList)
+		if !isList {
+			return fmt.Errorf("feature '%v' is not a list", featureData.eFeature.GetName())
+		}
 		return d.decodeObjects(l)
 	case bfkData:
 		decoded, err := d.decodeString()
@@ -381,7 +402,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 			value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
 			values = append(values, value)
 		}
-		l := eObject.EGetResolve(featureData.eFeature, false).(EList)
+		l, isList := eObject.EGetResolve(featureData.eFeature, false).(EList)
+		if !isList {
+			return fmt.Errorf("feature '%v' is not a list", featureData.eFeature.GetName())
+		}
 		l.AddAll(NewBasicEList(values))
 	case bfkEnum:
 		var valueStr string
@@ -389,6 +413,9 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
+		if id < 0 {
+			return fmt.Errorf("invalid enum literal id '%v'", id)
+		}
 		if len(d.enumLiterals) <= id {
 			decoded, err := d.decodeString()
 			if err != nil {
@@ -399,6 +426,9 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		} else {
 			valueStr = d.enumLiterals[id]
 		}
+		if eEnum, _ := featureData.eDataType.(EEnum); eEnum != nil && eEnum.GetEEnumLiteralByLiteral(valueStr) == nil {
+			return fmt.Errorf("'%v' is not a literal of enum '%v'", valueStr, eEnum.GetName())
+		}
 		value := featureData.eFactory.CreateFromString(featureData.eDataType, valueStr)
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDate:
@@ -480,6 +510,9 @@ func (d *BinaryDecoder) decodeClass() (*binaryDecoderClassData, error) {
 	if err != nil {
 		return nil, err
 	}
+	if id < 0 || id >= len(ePackageData.eClassData) {
+		return nil, fmt.Errorf("invalid class id '%v' in package '%v'", id, ePackageData.ePackage.GetNsURI())
+	}
 	eClassData := ePackageData.eClassData[id]
 	if eClassData == nil {
 		eClassData, err = d.newClassData(ePackageData)
@@ -496,6 +529,9 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 	if err != nil {
 		return nil, err
 	}
+	if id < 0 {
+		return nil, fmt.Errorf("invalid package id '%v'", id)
+	}
 	if len(d.packageData) <= id {
 		// decode package parameters
 		nsURI, err := d.decodeString()
@@ -514,7 +550,7 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 			packageRegistry = resourceSet.GetPackageRegistry()
 		}
 		ePackage := packageRegistry.GetPackage(nsURI)
-		if ePackage == nil && resourceSet != nil {
+		if ePackage == nil && resourceSet != nil && uri != nil {
 			ePackage, _ = resourceSet.GetEObject(uri, true).(EPackage)
 		}
 		if ePackage == nil {
@@ -540,6 +576,9 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 		return nil, nil
 	default:
 		var uri *URI
+		if id < 0 {
+			return nil, fmt.Errorf("invalid uri id '%v'", id)
+		}
 		if len(d.uris) <= int(id) {
 			// build uri
 			uriStr, err := d.decodeString()
@@ -549,7 +588,11 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 			if uriStr == "" {
 				uri = d.baseURI
 			} else {
-				uri = d.resolveURI(NewURI(uriStr))
+				uri, err = ParseURI(uriStr)
+				if err != nil {
+					return nil, err
+				}
+				uri = d.resolveURI(uri)
 			}
 			// add it to the uri array
 			d.uris = append(d.uris, uri)
@@ -588,6 +631,9 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	if eClass == nil {
 		return nil, fmt.Errorf("unable to find class '%v' in package '%v'", className, ePackage.GetNsURI())
 	}
+	if eClass.IsAbstract() {
+		return nil, fmt.Errorf("class '%v' in package '%v' is abstract", className, ePackage.GetNsURI())
+	}
 	return &binaryDecoderClassData{
 		eClass:      eClass,
 		eFactory:    ePackage.GetEFactoryInstance(),
@@ -595,7 +641,7 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	}, nil
 }
 
-func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featureID int) (*binaryDecoderFeatureData, error) {
+func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData) (*binaryDecoderFeatureData, error) {
 	eFeatureName, err := d.decodeString()
 	if err != nil {
 		return nil, err
@@ -606,11 +652,14 @@ func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featu
 	}
 	eFeatureData := &binaryDecoderFeatureData{
 		eFeature:    eFeature,
-		featureID:   featureID,
+		featureID:   eClassData.eClass.GetFeatureID(eFeature),
 		featureKind: getBinaryCodecFeatureKind(eFeature),
 	}
 	if eAttribute, _ := eFeature.(EAttribute); eAttribute != nil {
 		eFeatureData.eDataType = eAttribute.GetEAttributeType()
+		if eFeatureData.eDataType == nil || eFeatureData.eDataType.GetEPackage() == nil {
+			return nil, fmt.Errorf("unable to find the type of feature '%v' in '%v' EClass", eFeatureName, eClassData.eClass.GetName())
+		}
 		eFeatureData.eFactory = eFeatureData.eDataType.GetEPackage().GetEFactoryInstance()
 	}
 	return eFeatureData, nil
-- 
2.43.0


From 234ecee7e662a80753c0879da05289210e85f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 50/53] fix: parse URI fragment without decoding it

ParseURI unescaped the fragment while URI.String and the resources write it raw, so escaped fragment segments did not survive a round trip.
---
 ecore/uri.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index f30fdca..261b58d 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -213,10 +213,12 @@ func ParseURI(rawURI string) (*URI, error) {
 	cache := getURICache()
 	uri := cache.Get(rawURI)
 	if uri == nil {
-		if url, err := url.Parse(rawURI); err != nil {
+		// the fragment is kept as it is written: its segments have their own encoding
+		rawBase, fragment, _ := strings.Cut(rawURI, "#")
+		if url, err := url.Parse(rawBase); err != nil {
 			return nil, err
 		} else {
-			uri = &URI{scheme: url.Scheme, path: url.Path, fragment: url.Fragment, query: url.RawQuery, rawURI: rawURI}
+			uri = &URI{scheme: url.Scheme, path: url.Path, fragment: fragment, query: url.RawQuery, rawURI: rawURI}
 			if url.User != nil {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
-- 
2.43.0


From 08d56c618bf4d3fc8202b4350531a89f1299642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 51/53] fix: resolve unknown or malformed fragment segments to
 nil

Fragment segments are escaped when written but were not unescaped when read, and segments naming nothing panicked or indexed out of range.
---
 ecore/abstracteobject.go   | 30 ++++++++++++++++--------------
 ecore/ecoreutils.go        | 11 +++++++++--
 ecore/emodelelement_ext.go | 14 +++++++++++---
 ecore/eresource_impl.go    | 16 ++++++++++++----
 4 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..3af6e79 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -876,36 +876,38 @@ func (o *AbstractEObject) EBasicRemoveFromContainerFeature(notifications ENotifi
 	return notifications
 }
 
-func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeature {
-	eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(featureName)
-	if eFeature == nil {
-		panic("The feature " + featureName + " is not a valid feature")
-	}
-	return eFeature
-}
-
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
 
 	lastIndex := len(uriSegment) - 1
 	if lastIndex == -1 || uriSegment[0] != '@' {
-		panic("Expecting @ at index 0 of '" + uriSegment + "'")
+		return nil
 	}
 
 	index := -1
 	r, _ := utf8.DecodeLastRuneInString(uriSegment)
 	if unicode.IsDigit(r) {
 		if index = strings.LastIndex(uriSegment, "."); index != -1 {
-			pos, _ := strconv.Atoi(uriSegment[index+1:])
+			pos, err := strconv.Atoi(uriSegment[index+1:])
+			if err != nil {
+				return nil
+			}
 			eFeatureName := uriSegment[1:index]
-			eFeature := o.eStructuralFeature(eFeatureName)
+			eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(eFeatureName)
+			if eFeature == nil {
+				return nil
+			}
 			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
-			if list != nil && pos < list.Size() {
-				return list.Get(pos).(EObject)
+			if list != nil && pos >= 0 && pos < list.Size() {
+				eObject, _ := list.Get(pos).(EObject)
+				return eObject
 			}
 		}
 	}
 	if index == -1 {
-		eFeature := o.eStructuralFeature(uriSegment[1:])
+		eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(uriSegment[1:])
+		if eFeature == nil {
+			return nil
+		}
 		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
 		return eObject
 	}
diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..54a05f8 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -94,10 +94,17 @@ func getRelativeURIFragmentPath(ancestor EObject, descendant EObject, _ bool) st
 }
 
 func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
+	if len(relativeFragmentPath) == 0 {
+		return rootEObject
+	}
 	segments := strings.Split(relativeFragmentPath, "/")
-	eObject := rootEObject.(EObjectInternal)
+	eObject := rootEObject
 	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+		eObjectInternal, _ := eObject.(EObjectInternal)
+		if eObjectInternal == nil {
+			return nil
+		}
+		eObject = eObjectInternal.EObjectForFragmentSegment(segments[i])
 	}
 	return eObject
 }
diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..acfcba5 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,13 +51,17 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
+					hasCount = index+1 < len(uriFragmentSegment) && uriFragmentSegment[index+1] == '.'
 					if index == len(uriFragmentSegment)-1 || hasCount {
 
 						// DecodeResource all encoded characters.
 						source := ""
 						if encodedSource := uriFragmentSegment[1:index]; encodedSource != "%" {
-							source, _ = url.PathUnescape(encodedSource)
+							decodedSource, err := url.PathUnescape(encodedSource)
+							if err != nil {
+								return nil
+							}
+							source = decodedSource
 						}
 
 						// Check for a count, i.e., a '.' followed by a number.
@@ -106,7 +110,11 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 			if name == "%" {
 				name = ""
 			} else {
-				name = url.PathEscape(name)
+				decodedName, err := url.PathUnescape(name)
+				if err != nil {
+					return nil
+				}
+				name = decodedName
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index cdc207d..257ca1e 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -243,7 +243,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index != -1 {
 				id = uriFragment[:index]
 			}
 		}
@@ -330,7 +330,11 @@ func (r *EResourceImpl) getObjectByPath(uriFragmentPath []string) EObject {
 		eObject = r.getObjectForRootSegment(uriFragmentPath[0])
 	}
 	for i := 1; i < len(uriFragmentPath) && eObject != nil; i++ {
-		eObject = eObject.(EObjectInternal).EObjectForFragmentSegment(uriFragmentPath[i])
+		eObjectInternal, _ := eObject.(EObjectInternal)
+		if eObjectInternal == nil {
+			return nil
+		}
+		eObject = eObjectInternal.EObjectForFragmentSegment(uriFragmentPath[i])
 	}
 	return eObject
 }
@@ -341,11 +345,15 @@ func (r *EResourceImpl) getObjectForRootSegment(rootSegment string) EObject {
 		if rootSegment[0] == '?' {
 			return r.getObjectByID(rootSegment[1:])
 		} else {
-			position, _ = strconv.Atoi(rootSegment)
+			var err error
+			if position, err = strconv.Atoi(rootSegment); err != nil {
+				return nil
+			}
 		}
 	}
 	if position >= 0 && position < r.GetContents().Size() {
-		return r.GetContents().Get(position).(EObject)
+		eObject, _ := r.GetContents().Get(position).(EObject)
+		return eObject
 	}
 	return nil
 }
-- 
2.43.0


From a6afb785061d898632464a348aca775c4a633347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 52/53] fix: keep iterating the remaining containment features
 when one is empty

---
 ecore/eallcontents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..d0940cb 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -244,8 +244,8 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 				return eObject
 			}
 
-		} else {
-			// pop data from the stack
+		} else if len(d.transitions) == 0 {
+			// no remaining transition : pop data from the stack
 			it.data = it.data[:len(it.data)-1]
 		}
 	}
-- 
2.43.0


From 0acf7a429268f2029431376ab7be561b48516b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:46 +0000
Subject: [PATCH 53/53] fix: report an element whose type can not be
 instantiated

---
 ecore/xmldecoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 53a8a6a..b299723 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -392,8 +392,9 @@ func (l *XMLDecoder) createObjectFromFeatureType(eObject EObject, eFeature EStru
 	var eResult EObject
 	if eFeature != nil {
 		if eType := eFeature.GetEType(); eType != nil {
-			eFactory := eType.GetEPackage().GetEFactoryInstance()
-			eResult = l.createObjectWithFactory(eFactory, eType, true)
+			ePackage := eType.GetEPackage()
+			eResult = l.createObjectWithFactory(ePackage.GetEFactoryInstance(), eType, true)
+			l.validateObject(eResult, ePackage.GetNsURI(), eType.GetName())
 		}
 	}
 	if eResult != nil {
-- 
2.43.0


// Code generated by gen_targets.py. DO NOT EDIT.
package main

import (
	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/at.v2"
)

type siteV struct{}
type siteP struct{ _ int }
type siteG[T any] struct{ _ T }

func (siteV) siteBuild(b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func (*siteP) siteBuild(b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func (*siteG[T]) siteBuild(b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func siteBuildGen[T any](b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
var siteBuildVar = func(b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func siteBuild(k int, b *mockey.MockBuilder) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = b.Build()
	case 1:
		here(); r = b.Build()
	case 2:
		here(); r = b.Build()
	case 3:
		here(); r = b.Build()
	case 4:
		r = siteV{}.siteBuild(b)
	case 5:
		r = (&siteP{}).siteBuild(b)
	case 6:
		r = (&siteG[int]{}).siteBuild(b)
	case 7:
		r = siteBuildGen[string](b)
	case 8:
		r = siteBuildVar(b)
	case 9:
		func() {
			here(); r = b.Build()
		}()
	case 10:
		r = at.V{}.SiteBuild(here, b)
	case 11:
		r = (&at.P{}).SiteBuild(here, b)
	case 12:
		r = (&at.G[string]{}).SiteBuild(here, b)
	case 13:
		r = at.SiteBuild(here, b)
	case 14:
		r = at.SiteBuildVar(here, b)
	case 15:
		here(); r = b.Build()
	}
	return
}
func (siteV) sitePatch(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func (*siteP) sitePatch(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func (*siteG[T]) sitePatch(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func sitePatchGen[T any](m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
var sitePatchVar = func(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func sitePatch(k int, m *mockey.Mocker) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.Patch()
	case 1:
		here(); r = m.Patch()
	case 2:
		here(); r = m.Patch()
	case 3:
		here(); r = m.Patch()
	case 4:
		r = siteV{}.sitePatch(m)
	case 5:
		r = (&siteP{}).sitePatch(m)
	case 6:
		r = (&siteG[int]{}).sitePatch(m)
	case 7:
		r = sitePatchGen[string](m)
	case 8:
		r = sitePatchVar(m)
	case 9:
		func() {
			here(); r = m.Patch()
		}()
	case 10:
		r = at.V{}.SitePatch(here, m)
	case 11:
		r = (&at.P{}).SitePatch(here, m)
	case 12:
		r = (&at.G[string]{}).SitePatch(here, m)
	case 13:
		r = at.SitePatch(here, m)
	case 14:
		r = at.SitePatchVar(here, m)
	case 15:
		here(); r = m.Patch()
	}
	return
}
func (siteV) siteTo(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func (*siteP) siteTo(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func (*siteG[T]) siteTo(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func siteToGen[T any](m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
var siteToVar = func(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func siteTo(k int, m *mockey.Mocker, h interface{}) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.To(h)
	case 1:
		here(); r = m.To(h)
	case 2:
		here(); r = m.To(h)
	case 3:
		here(); r = m.To(h)
	case 4:
		r = siteV{}.siteTo(m, h)
	case 5:
		r = (&siteP{}).siteTo(m, h)
	case 6:
		r = (&siteG[int]{}).siteTo(m, h)
	case 7:
		r = siteToGen[string](m, h)
	case 8:
		r = siteToVar(m, h)
	case 9:
		func() {
			here(); r = m.To(h)
		}()
	case 10:
		r = at.V{}.SiteTo(here, m, h)
	case 11:
		r = (&at.P{}).SiteTo(here, m, h)
	case 12:
		r = (&at.G[string]{}).SiteTo(here, m, h)
	case 13:
		r = at.SiteTo(here, m, h)
	case 14:
		r = at.SiteToVar(here, m, h)
	case 15:
		here(); r = m.To(h)
	}
	return
}
func (siteV) siteReturn(m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func (*siteP) siteReturn(m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func (*siteG[T]) siteReturn(m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func siteReturnGen[T any](m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
var siteReturnVar = func(m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func siteReturn(k int, m *mockey.Mocker, h []interface{}) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.Return(h...)
	case 1:
		here(); r = m.Return(h...)
	case 2:
		here(); r = m.Return(h...)
	case 3:
		here(); r = m.Return(h...)
	case 4:
		r = siteV{}.siteReturn(m, h)
	case 5:
		r = (&siteP{}).siteReturn(m, h)
	case 6:
		r = (&siteG[int]{}).siteReturn(m, h)
	case 7:
		r = siteReturnGen[string](m, h)
	case 8:
		r = siteReturnVar(m, h)
	case 9:
		func() {
			here(); r = m.Return(h...)
		}()
	case 10:
		r = at.V{}.SiteReturn(here, m, h)
	case 11:
		r = (&at.P{}).SiteReturn(here, m, h)
	case 12:
		r = (&at.G[string]{}).SiteReturn(here, m, h)
	case 13:
		r = at.SiteReturn(here, m, h)
	case 14:
		r = at.SiteReturnVar(here, m, h)
	case 15:
		here(); r = m.Return(h...)
	}
	return
}
func (siteV) siteWhen(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func (*siteP) siteWhen(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func (*siteG[T]) siteWhen(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func siteWhenGen[T any](m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
var siteWhenVar = func(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func siteWhen(k int, m *mockey.Mocker, h interface{}) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.When(h)
	case 1:
		here(); r = m.When(h)
	case 2:
		here(); r = m.When(h)
	case 3:
		here(); r = m.When(h)
	case 4:
		r = siteV{}.siteWhen(m, h)
	case 5:
		r = (&siteP{}).siteWhen(m, h)
	case 6:
		r = (&siteG[int]{}).siteWhen(m, h)
	case 7:
		r = siteWhenGen[string](m, h)
	case 8:
		r = siteWhenVar(m, h)
	case 9:
		func() {
			here(); r = m.When(h)
		}()
	case 10:
		r = at.V{}.SiteWhen(here, m, h)
	case 11:
		r = (&at.P{}).SiteWhen(here, m, h)
	case 12:
		r = (&at.G[string]{}).SiteWhen(here, m, h)
	case 13:
		r = at.SiteWhen(here, m, h)
	case 14:
		r = at.SiteWhenVar(here, m, h)
	case 15:
		here(); r = m.When(h)
	}
	return
}
func (siteV) siteOrigin(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func (*siteP) siteOrigin(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func (*siteG[T]) siteOrigin(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func siteOriginGen[T any](m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
var siteOriginVar = func(m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func siteOrigin(k int, m *mockey.Mocker, h interface{}) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.Origin(h)
	case 1:
		here(); r = m.Origin(h)
	case 2:
		here(); r = m.Origin(h)
	case 3:
		here(); r = m.Origin(h)
	case 4:
		r = siteV{}.siteOrigin(m, h)
	case 5:
		r = (&siteP{}).siteOrigin(m, h)
	case 6:
		r = (&siteG[int]{}).siteOrigin(m, h)
	case 7:
		r = siteOriginGen[string](m, h)
	case 8:
		r = siteOriginVar(m, h)
	case 9:
		func() {
			here(); r = m.Origin(h)
		}()
	case 10:
		r = at.V{}.SiteOrigin(here, m, h)
	case 11:
		r = (&at.P{}).SiteOrigin(here, m, h)
	case 12:
		r = (&at.G[string]{}).SiteOrigin(here, m, h)
	case 13:
		r = at.SiteOrigin(here, m, h)
	case 14:
		r = at.SiteOriginVar(here, m, h)
	case 15:
		here(); r = m.Origin(h)
	}
	return
}
func (siteV) siteFilter(m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func (*siteP) siteFilter(m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func (*siteG[T]) siteFilter(m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func siteFilterGen[T any](m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
var siteFilterVar = func(m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func siteFilter(k int, m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.FilterGoRoutine(t, g)
	case 1:
		here(); r = m.FilterGoRoutine(t, g)
	case 2:
		here(); r = m.FilterGoRoutine(t, g)
	case 3:
		here(); r = m.FilterGoRoutine(t, g)
	case 4:
		r = siteV{}.siteFilter(m, t, g)
	case 5:
		r = (&siteP{}).siteFilter(m, t, g)
	case 6:
		r = (&siteG[int]{}).siteFilter(m, t, g)
	case 7:
		r = siteFilterGen[string](m, t, g)
	case 8:
		r = siteFilterVar(m, t, g)
	case 9:
		func() {
			here(); r = m.FilterGoRoutine(t, g)
		}()
	case 10:
		r = at.V{}.SiteFilter(here, m, t, g)
	case 11:
		r = (&at.P{}).SiteFilter(here, m, t, g)
	case 12:
		r = (&at.G[string]{}).SiteFilter(here, m, t, g)
	case 13:
		r = at.SiteFilter(here, m, t, g)
	case 14:
		r = at.SiteFilterVar(here, m, t, g)
	case 15:
		here(); r = m.FilterGoRoutine(t, g)
	}
	return
}
func (siteV) siteInc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func (*siteP) siteInc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func (*siteG[T]) siteInc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func siteIncGen[T any](m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
var siteIncVar = func(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func siteInc(k int, m *mockey.Mocker) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.IncludeCurrentGoRoutine()
	case 1:
		here(); r = m.IncludeCurrentGoRoutine()
	case 2:
		here(); r = m.IncludeCurrentGoRoutine()
	case 3:
		here(); r = m.IncludeCurrentGoRoutine()
	case 4:
		r = siteV{}.siteInc(m)
	case 5:
		r = (&siteP{}).siteInc(m)
	case 6:
		r = (&siteG[int]{}).siteInc(m)
	case 7:
		r = siteIncGen[string](m)
	case 8:
		r = siteIncVar(m)
	case 9:
		func() {
			here(); r = m.IncludeCurrentGoRoutine()
		}()
	case 10:
		r = at.V{}.SiteInc(here, m)
	case 11:
		r = (&at.P{}).SiteInc(here, m)
	case 12:
		r = (&at.G[string]{}).SiteInc(here, m)
	case 13:
		r = at.SiteInc(here, m)
	case 14:
		r = at.SiteIncVar(here, m)
	case 15:
		here(); r = m.IncludeCurrentGoRoutine()
	}
	return
}
func (siteV) siteExc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func (*siteP) siteExc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func (*siteG[T]) siteExc(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func siteExcGen[T any](m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
var siteExcVar = func(m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func siteExc(k int, m *mockey.Mocker) (r *mockey.Mocker) {
	switch k % 16 {
	case 0:
		here(); r = m.ExcludeCurrentGoRoutine()
	case 1:
		here(); r = m.ExcludeCurrentGoRoutine()
	case 2:
		here(); r = m.ExcludeCurrentGoRoutine()
	case 3:
		here(); r = m.ExcludeCurrentGoRoutine()
	case 4:
		r = siteV{}.siteExc(m)
	case 5:
		r = (&siteP{}).siteExc(m)
	case 6:
		r = (&siteG[int]{}).siteExc(m)
	case 7:
		r = siteExcGen[string](m)
	case 8:
		r = siteExcVar(m)
	case 9:
		func() {
			here(); r = m.ExcludeCurrentGoRoutine()
		}()
	case 10:
		r = at.V{}.SiteExc(here, m)
	case 11:
		r = (&at.P{}).SiteExc(here, m)
	case 12:
		r = (&at.G[string]{}).SiteExc(here, m)
	case 13:
		r = at.SiteExc(here, m)
	case 14:
		r = at.SiteExcVar(here, m)
	case 15:
		here(); r = m.ExcludeCurrentGoRoutine()
	}
	return
}
func (siteV) siteVTo(m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func (*siteP) siteVTo(m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func (*siteG[T]) siteVTo(m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func siteVToGen[T any](m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
var siteVToVar = func(m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func siteVTo(k int, m *mockey.MockerVar, x interface{}) (r *mockey.MockerVar) {
	switch k % 16 {
	case 0:
		here(); r = m.To(x)
	case 1:
		here(); r = m.To(x)
	case 2:
		here(); r = m.To(x)
	case 3:
		here(); r = m.To(x)
	case 4:
		r = siteV{}.siteVTo(m, x)
	case 5:
		r = (&siteP{}).siteVTo(m, x)
	case 6:
		r = (&siteG[int]{}).siteVTo(m, x)
	case 7:
		r = siteVToGen[string](m, x)
	case 8:
		r = siteVToVar(m, x)
	case 9:
		func() {
			here(); r = m.To(x)
		}()
	case 10:
		r = at.V{}.SiteVTo(here, m, x)
	case 11:
		r = (&at.P{}).SiteVTo(here, m, x)
	case 12:
		r = (&at.G[string]{}).SiteVTo(here, m, x)
	case 13:
		r = at.SiteVTo(here, m, x)
	case 14:
		r = at.SiteVToVar(here, m, x)
	case 15:
		here(); r = m.To(x)
	}
	return
}
func (siteV) siteVPatch(m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func (*siteP) siteVPatch(m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func (*siteG[T]) siteVPatch(m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func siteVPatchGen[T any](m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
var siteVPatchVar = func(m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func siteVPatch(k int, m *mockey.MockerVar) (r *mockey.MockerVar) {
	switch k % 16 {
	case 0:
		here(); r = m.Patch()
	case 1:
		here(); r = m.Patch()
	case 2:
		here(); r = m.Patch()
	case 3:
		here(); r = m.Patch()
	case 4:
		r = siteV{}.siteVPatch(m)
	case 5:
		r = (&siteP{}).siteVPatch(m)
	case 6:
		r = (&siteG[int]{}).siteVPatch(m)
	case 7:
		r = siteVPatchGen[string](m)
	case 8:
		r = siteVPatchVar(m)
	case 9:
		func() {
			here(); r = m.Patch()
		}()
	case 10:
		r = at.V{}.SiteVPatch(here, m)
	case 11:
		r = (&at.P{}).SiteVPatch(here, m)
	case 12:
		r = (&at.G[string]{}).SiteVPatch(here, m)
	case 13:
		r = at.SiteVPatch(here, m)
	case 14:
		r = at.SiteVPatchVar(here, m)
	case 15:
		here(); r = m.Patch()
	}
	return
}

// Code generated by gen_targets.py. DO NOT EDIT.

// Package at uses mockey from outside of the main package.
package at

import "github.com/bytedance/mockey"

type V struct{}
type P struct{ _ int }
type G[T any] struct{ _ T }

func (V) SiteBuild(here func(), b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func (*P) SiteBuild(here func(), b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func (*G[T]) SiteBuild(here func(), b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func SiteBuild(here func(), b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
var SiteBuildVar = func(here func(), b *mockey.MockBuilder) *mockey.Mocker {
	here(); return b.Build()
}
func (V) SitePatch(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func (*P) SitePatch(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func (*G[T]) SitePatch(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func SitePatch(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
var SitePatchVar = func(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.Patch()
}
func (V) SiteTo(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func (*P) SiteTo(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func (*G[T]) SiteTo(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func SiteTo(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
var SiteToVar = func(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.To(h)
}
func (V) SiteReturn(here func(), m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func (*P) SiteReturn(here func(), m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func (*G[T]) SiteReturn(here func(), m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func SiteReturn(here func(), m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
var SiteReturnVar = func(here func(), m *mockey.Mocker, h []interface{}) *mockey.Mocker {
	here(); return m.Return(h...)
}
func (V) SiteWhen(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func (*P) SiteWhen(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func (*G[T]) SiteWhen(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func SiteWhen(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
var SiteWhenVar = func(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.When(h)
}
func (V) SiteOrigin(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func (*P) SiteOrigin(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func (*G[T]) SiteOrigin(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func SiteOrigin(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
var SiteOriginVar = func(here func(), m *mockey.Mocker, h interface{}) *mockey.Mocker {
	here(); return m.Origin(h)
}
func (V) SiteFilter(here func(), m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func (*P) SiteFilter(here func(), m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func (*G[T]) SiteFilter(here func(), m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func SiteFilter(here func(), m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
var SiteFilterVar = func(here func(), m *mockey.Mocker, t mockey.FilterGoroutineType, g int64) *mockey.Mocker {
	here(); return m.FilterGoRoutine(t, g)
}
func (V) SiteInc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func (*P) SiteInc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func (*G[T]) SiteInc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func SiteInc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
var SiteIncVar = func(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.IncludeCurrentGoRoutine()
}
func (V) SiteExc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func (*P) SiteExc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func (*G[T]) SiteExc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func SiteExc(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
var SiteExcVar = func(here func(), m *mockey.Mocker) *mockey.Mocker {
	here(); return m.ExcludeCurrentGoRoutine()
}
func (V) SiteVTo(here func(), m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func (*P) SiteVTo(here func(), m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func (*G[T]) SiteVTo(here func(), m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func SiteVTo(here func(), m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
var SiteVToVar = func(here func(), m *mockey.MockerVar, x interface{}) *mockey.MockerVar {
	here(); return m.To(x)
}
func (V) SiteVPatch(here func(), m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func (*P) SiteVPatch(here func(), m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func (*G[T]) SiteVPatch(here func(), m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
func SiteVPatch(here func(), m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}
var SiteVPatchVar = func(here func(), m *mockey.MockerVar) *mockey.MockerVar {
	here(); return m.Patch()
}

// Code generated by gen_targets.py. DO NOT EDIT.
package main

import "github.com/bytedance/mockey"
import "unsafe"

var _ = mockey.GetMethod
var _ unsafe.Pointer

func T_plain_1(a0 int) (int) {
	v := body(1, false, nil, &a0)
	return EV[int](v, 0)
}
func T_plain_2(a0 int) (int) {
	v := body(2, false, nil, &a0)
	return EV[int](v, 0)
}
func T_plain_3(a0 int) (int) {
	v := body(3, false, nil, &a0)
	return EV[int](v, 0)
}
func T_plain_4(a0 int) (int) {
	v := body(4, false, nil, &a0)
	return EV[int](v, 0)
}
func T_str2_1(a0 string, a1 int) (string, error) {
	v := body(1, false, nil, &a0, &a1)
	return EV[string](v, 0), EV[error](v, 1)
}
func T_str2_2(a0 string, a1 int) (string, error) {
	v := body(2, false, nil, &a0, &a1)
	return EV[string](v, 0), EV[error](v, 1)
}
func T_str2_3(a0 string, a1 int) (string, error) {
	v := body(3, false, nil, &a0, &a1)
	return EV[string](v, 0), EV[error](v, 1)
}
func T_str2_4(a0 string, a1 int) (string, error) {
	v := body(4, false, nil, &a0, &a1)
	return EV[string](v, 0), EV[error](v, 1)
}
func T_unsafe_1(a0 int64, a1 bool) (int64) {
	v := body(1, false, nil, &a0, &a1)
	return EV[int64](v, 0)
}
func T_unsafe_2(a0 int64, a1 bool) (int64) {
	v := body(2, false, nil, &a0, &a1)
	return EV[int64](v, 0)
}
func T_unsafe_3(a0 int64, a1 bool) (int64) {
	v := body(3, false, nil, &a0, &a1)
	return EV[int64](v, 0)
}
func T_unsafe_4(a0 int64, a1 bool) (int64) {
	v := body(4, false, nil, &a0, &a1)
	return EV[int64](v, 0)
}
type T_ptrm Small
var T_ptrm_recv = EV[T_ptrm](77, 50)
func (r *T_ptrm) M1(a0 int) (int) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_ptrm) M2(a0 int) (int) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_ptrm) M3(a0 int) (int) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_ptrm) M4(a0 int) (int) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0)
}
type T_ptrm2 Small
var T_ptrm2_recv = EV[T_ptrm2](77, 50)
func (r *T_ptrm2) M1(a0 bool, a1 string, a2 []int) (error, string) {
	v := body(1, false, &r, &a0, &a1, &a2)
	return EV[error](v, 0), EV[string](v, 1)
}
func (r *T_ptrm2) M2(a0 bool, a1 string, a2 []int) (error, string) {
	v := body(2, false, &r, &a0, &a1, &a2)
	return EV[error](v, 0), EV[string](v, 1)
}
func (r *T_ptrm2) M3(a0 bool, a1 string, a2 []int) (error, string) {
	v := body(3, false, &r, &a0, &a1, &a2)
	return EV[error](v, 0), EV[string](v, 1)
}
func (r *T_ptrm2) M4(a0 bool, a1 string, a2 []int) (error, string) {
	v := body(4, false, &r, &a0, &a1, &a2)
	return EV[error](v, 0), EV[string](v, 1)
}
type T_valm Small
var T_valm_recv = EV[T_valm](77, 50)
func (r T_valm) M1(a0 int) (int, string) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0), EV[string](v, 1)
}
func (r T_valm) M2(a0 int) (int, string) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0), EV[string](v, 1)
}
func (r T_valm) M3(a0 int) (int, string) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0), EV[string](v, 1)
}
func (r T_valm) M4(a0 int) (int, string) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0), EV[string](v, 1)
}
func T_variad_1(a0 int, a1 ...string) (int) {
	v := body(1, true, nil, &a0, &a1)
	return EV[int](v, 0)
}
func T_variad_2(a0 int, a1 ...string) (int) {
	v := body(2, true, nil, &a0, &a1)
	return EV[int](v, 0)
}
func T_variad_3(a0 int, a1 ...string) (int) {
	v := body(3, true, nil, &a0, &a1)
	return EV[int](v, 0)
}
func T_variad_4(a0 int, a1 ...string) (int) {
	v := body(4, true, nil, &a0, &a1)
	return EV[int](v, 0)
}
type T_variad2 Small
var T_variad2_recv = EV[T_variad2](77, 50)
func (r *T_variad2) M1(a0 ...string) (string) {
	v := body(1, true, &r, &a0)
	return EV[string](v, 0)
}
func (r *T_variad2) M2(a0 ...string) (string) {
	v := body(2, true, &r, &a0)
	return EV[string](v, 0)
}
func (r *T_variad2) M3(a0 ...string) (string) {
	v := body(3, true, &r, &a0)
	return EV[string](v, 0)
}
func (r *T_variad2) M4(a0 ...string) (string) {
	v := body(4, true, &r, &a0)
	return EV[string](v, 0)
}
type T_variad3 Small
var T_variad3_recv = EV[T_variad3](77, 50)
func (r T_variad3) M1(a0 float64, a1 ...interface{}) (float64, []string) {
	v := body(1, true, &r, &a0, &a1)
	return EV[float64](v, 0), EV[[]string](v, 1)
}
func (r T_variad3) M2(a0 float64, a1 ...interface{}) (float64, []string) {
	v := body(2, true, &r, &a0, &a1)
	return EV[float64](v, 0), EV[[]string](v, 1)
}
func (r T_variad3) M3(a0 float64, a1 ...interface{}) (float64, []string) {
	v := body(3, true, &r, &a0, &a1)
	return EV[float64](v, 0), EV[[]string](v, 1)
}
func (r T_variad3) M4(a0 float64, a1 ...interface{}) (float64, []string) {
	v := body(4, true, &r, &a0, &a1)
	return EV[float64](v, 0), EV[[]string](v, 1)
}
func T_many_1(a0 int, a1 float64, a2 string, a3 int8, a4 uint16, a5 float32, a6 int64, a7 bool, a8 []byte, a9 error, a10 uint64, a11 int32, a12 string, a13 float64) (string, int, float64, bool, error, []string, int8, uint32, float32, int64, string) {
	v := body(1, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9, &a10, &a11, &a12, &a13)
	return EV[string](v, 0), EV[int](v, 1), EV[float64](v, 2), EV[bool](v, 3), EV[error](v, 4), EV[[]string](v, 5), EV[int8](v, 6), EV[uint32](v, 7), EV[float32](v, 8), EV[int64](v, 9), EV[string](v, 10)
}
func T_many_2(a0 int, a1 float64, a2 string, a3 int8, a4 uint16, a5 float32, a6 int64, a7 bool, a8 []byte, a9 error, a10 uint64, a11 int32, a12 string, a13 float64) (string, int, float64, bool, error, []string, int8, uint32, float32, int64, string) {
	v := body(2, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9, &a10, &a11, &a12, &a13)
	return EV[string](v, 0), EV[int](v, 1), EV[float64](v, 2), EV[bool](v, 3), EV[error](v, 4), EV[[]string](v, 5), EV[int8](v, 6), EV[uint32](v, 7), EV[float32](v, 8), EV[int64](v, 9), EV[string](v, 10)
}
func T_many_3(a0 int, a1 float64, a2 string, a3 int8, a4 uint16, a5 float32, a6 int64, a7 bool, a8 []byte, a9 error, a10 uint64, a11 int32, a12 string, a13 float64) (string, int, float64, bool, error, []string, int8, uint32, float32, int64, string) {
	v := body(3, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9, &a10, &a11, &a12, &a13)
	return EV[string](v, 0), EV[int](v, 1), EV[float64](v, 2), EV[bool](v, 3), EV[error](v, 4), EV[[]string](v, 5), EV[int8](v, 6), EV[uint32](v, 7), EV[float32](v, 8), EV[int64](v, 9), EV[string](v, 10)
}
func T_many_4(a0 int, a1 float64, a2 string, a3 int8, a4 uint16, a5 float32, a6 int64, a7 bool, a8 []byte, a9 error, a10 uint64, a11 int32, a12 string, a13 float64) (string, int, float64, bool, error, []string, int8, uint32, float32, int64, string) {
	v := body(4, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9, &a10, &a11, &a12, &a13)
	return EV[string](v, 0), EV[int](v, 1), EV[float64](v, 2), EV[bool](v, 3), EV[error](v, 4), EV[[]string](v, 5), EV[int8](v, 6), EV[uint32](v, 7), EV[float32](v, 8), EV[int64](v, 9), EV[string](v, 10)
}
func T_big_1(a0 Big, a1 int) (Big, int) {
	v := body(1, false, nil, &a0, &a1)
	return EV[Big](v, 0), EV[int](v, 1)
}
func T_big_2(a0 Big, a1 int) (Big, int) {
	v := body(2, false, nil, &a0, &a1)
	return EV[Big](v, 0), EV[int](v, 1)
}
func T_big_3(a0 Big, a1 int) (Big, int) {
	v := body(3, false, nil, &a0, &a1)
	return EV[Big](v, 0), EV[int](v, 1)
}
func T_big_4(a0 Big, a1 int) (Big, int) {
	v := body(4, false, nil, &a0, &a1)
	return EV[Big](v, 0), EV[int](v, 1)
}
type T_bigm Big2
var T_bigm_recv = EV[T_bigm](77, 50)
func (r T_bigm) M1(a0 Big) (int, Big) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0), EV[Big](v, 1)
}
func (r T_bigm) M2(a0 Big) (int, Big) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0), EV[Big](v, 1)
}
func (r T_bigm) M3(a0 Big) (int, Big) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0), EV[Big](v, 1)
}
func (r T_bigm) M4(a0 Big) (int, Big) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0), EV[Big](v, 1)
}
func T_refs_1(a0 interface{}, a1 func(int) int, a2 map[string]int, a3 chan int, a4 *Small, a5 []string, a6 int) (*Small, interface{}, map[string]int, int, func(int) int, chan int) {
	v := body(1, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6)
	return EV[*Small](v, 0), EV[interface{}](v, 1), EV[map[string]int](v, 2), EV[int](v, 3), EV[func(int) int](v, 4), EV[chan int](v, 5)
}
func T_refs_2(a0 interface{}, a1 func(int) int, a2 map[string]int, a3 chan int, a4 *Small, a5 []string, a6 int) (*Small, interface{}, map[string]int, int, func(int) int, chan int) {
	v := body(2, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6)
	return EV[*Small](v, 0), EV[interface{}](v, 1), EV[map[string]int](v, 2), EV[int](v, 3), EV[func(int) int](v, 4), EV[chan int](v, 5)
}
func T_refs_3(a0 interface{}, a1 func(int) int, a2 map[string]int, a3 chan int, a4 *Small, a5 []string, a6 int) (*Small, interface{}, map[string]int, int, func(int) int, chan int) {
	v := body(3, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6)
	return EV[*Small](v, 0), EV[interface{}](v, 1), EV[map[string]int](v, 2), EV[int](v, 3), EV[func(int) int](v, 4), EV[chan int](v, 5)
}
func T_refs_4(a0 interface{}, a1 func(int) int, a2 map[string]int, a3 chan int, a4 *Small, a5 []string, a6 int) (*Small, interface{}, map[string]int, int, func(int) int, chan int) {
	v := body(4, false, nil, &a0, &a1, &a2, &a3, &a4, &a5, &a6)
	return EV[*Small](v, 0), EV[interface{}](v, 1), EV[map[string]int](v, 2), EV[int](v, 3), EV[func(int) int](v, 4), EV[chan int](v, 5)
}
func T_gen_1[T any](a0 int, a1 T) (T, int) {
	use(any(a1))
	v := body(1, false, nil, &a0, &a1)
	var r0 T
	encOut(&r0, v, 0)
	var r1 int
	encOut(&r1, v, 1)
	return r0, r1
}
func T_gen_2[T any](a0 int, a1 T) (T, int) {
	use(any(a1))
	v := body(2, false, nil, &a0, &a1)
	var r0 T
	encOut(&r0, v, 0)
	var r1 int
	encOut(&r1, v, 1)
	return r0, r1
}
func T_gen_3[T any](a0 int, a1 T) (T, int) {
	use(any(a1))
	v := body(3, false, nil, &a0, &a1)
	var r0 T
	encOut(&r0, v, 0)
	var r1 int
	encOut(&r1, v, 1)
	return r0, r1
}
func T_gen_4[T any](a0 int, a1 T) (T, int) {
	use(any(a1))
	v := body(4, false, nil, &a0, &a1)
	var r0 T
	encOut(&r0, v, 0)
	var r1 int
	encOut(&r1, v, 1)
	return r0, r1
}
func T_genp_1[T any](a0 T, a1 int) (int) {
	use(any(a0))
	v := body(1, false, nil, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	return r0
}
func T_genp_2[T any](a0 T, a1 int) (int) {
	use(any(a0))
	v := body(2, false, nil, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	return r0
}
func T_genp_3[T any](a0 T, a1 int) (int) {
	use(any(a0))
	v := body(3, false, nil, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	return r0
}
func T_genp_4[T any](a0 T, a1 int) (int) {
	use(any(a0))
	v := body(4, false, nil, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	return r0
}
type T_genm[T any] struct { A int; B T }
var T_genm_recv = &T_genm[float64]{A: 7}
func (r *T_genm[T]) M1(a0 int, a1 T) (int, T) {
	use(any(a1))
	p := unsafe.Pointer(r)
	v := body(1, false, &p, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	var r1 T
	encOut(&r1, v, 1)
	return r0, r1
}
func (r *T_genm[T]) M2(a0 int, a1 T) (int, T) {
	use(any(a1))
	p := unsafe.Pointer(r)
	v := body(2, false, &p, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	var r1 T
	encOut(&r1, v, 1)
	return r0, r1
}
func (r *T_genm[T]) M3(a0 int, a1 T) (int, T) {
	use(any(a1))
	p := unsafe.Pointer(r)
	v := body(3, false, &p, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	var r1 T
	encOut(&r1, v, 1)
	return r0, r1
}
func (r *T_genm[T]) M4(a0 int, a1 T) (int, T) {
	use(any(a1))
	p := unsafe.Pointer(r)
	v := body(4, false, &p, &a0, &a1)
	var r0 int
	encOut(&r0, v, 0)
	var r1 T
	encOut(&r1, v, 1)
	return r0, r1
}
func T_zero_1() (int) {
	v := body(1, false, nil)
	return EV[int](v, 0)
}
func T_zero_2() (int) {
	v := body(2, false, nil)
	return EV[int](v, 0)
}
func T_zero_3() (int) {
	v := body(3, false, nil)
	return EV[int](v, 0)
}
func T_zero_4() (int) {
	v := body(4, false, nil)
	return EV[int](v, 0)
}
type T_gmp Small
var T_gmp_recv = EV[T_gmp](77, 50)
func (r *T_gmp) M1(a0 int) (int) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_gmp) M2(a0 int) (int) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_gmp) M3(a0 int) (int) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0)
}
func (r *T_gmp) M4(a0 int) (int) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0)
}
type T_gmv Small
var T_gmv_recv = EV[T_gmv](77, 50)
func (r T_gmv) M1(a0 string) (int, error) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0), EV[error](v, 1)
}
func (r T_gmv) M2(a0 string) (int, error) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0), EV[error](v, 1)
}
func (r T_gmv) M3(a0 string) (int, error) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0), EV[error](v, 1)
}
func (r T_gmv) M4(a0 string) (int, error) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0), EV[error](v, 1)
}
type T_gmpriv Small
var T_gmpriv_recv = EV[T_gmpriv](77, 50)
func init() { use((func(a0 int) (int))(nil)) }
func (r *T_gmpriv) m1(a0 int) (int) {
	v := body(1, false, &r, &a0)
	return EV[int](v, 0)
}
func init() { use((func(a0 int) (int))(nil)) }
func (r *T_gmpriv) m2(a0 int) (int) {
	v := body(2, false, &r, &a0)
	return EV[int](v, 0)
}
func init() { use((func(a0 int) (int))(nil)) }
func (r *T_gmpriv) m3(a0 int) (int) {
	v := body(3, false, &r, &a0)
	return EV[int](v, 0)
}
func init() { use((func(a0 int) (int))(nil)) }
func (r *T_gmpriv) m4(a0 int) (int) {
	v := body(4, false, &r, &a0)
	return EV[int](v, 0)
}
type T_gmnest_in struct { A int; B string }
type T_gmnest_mid struct { C int; *T_gmnest_in }
type T_gmnest struct { D string; T_gmnest_mid }
var T_gmnest_recv = &T_gmnest_in{1, "in"}
var T_gmnest_outer = &T_gmnest{"o", T_gmnest_mid{3, T_gmnest_recv}}
func (r *T_gmnest_in) M1(a0 int, a1 string) (int) {
	v := body(1, false, &r, &a0, &a1)
	return EV[int](v, 0)
}
func (r *T_gmnest_in) M2(a0 int, a1 string) (int) {
	v := body(2, false, &r, &a0, &a1)
	return EV[int](v, 0)
}
func (r *T_gmnest_in) M3(a0 int, a1 string) (int) {
	v := body(3, false, &r, &a0, &a1)
	return EV[int](v, 0)
}
func (r *T_gmnest_in) M4(a0 int, a1 string) (int) {
	v := body(4, false, &r, &a0, &a1)
	return EV[int](v, 0)
}
type T_gmiface_if interface { M1(int) string; M2(int) string; M3(int) string; M4(int) string }
type T_gmiface_in struct { A int }
type T_gmiface struct { T_gmiface_if }
var T_gmiface_recv = T_gmiface_in{5}
var T_gmiface_outer = T_gmiface{T_gmiface_recv}
func (r T_gmiface_in) M1(a0 int) (string) {
	v := body(1, false, &r, &a0)
	return EV[string](v, 0)
}
func (r T_gmiface_in) M2(a0 int) (string) {
	v := body(2, false, &r, &a0)
	return EV[string](v, 0)
}
func (r T_gmiface_in) M3(a0 int) (string) {
	v := body(3, false, &r, &a0)
	return EV[string](v, 0)
}
func (r T_gmiface_in) M4(a0 int) (string) {
	v := body(4, false, &r, &a0)
	return EV[string](v, 0)
}
type T_gmfield struct { f1, F1 func(int) int; f2, F2 func(int) int; f3, F3 func(int) int; f4, F4 func(int) int }
var T_gmfield_recv = &T_gmfield{}
func init() { T_gmfield_recv.f1 = func(a0 int) int {
	v := body(1, false, nil, &a0)
	return EV[int](v, 0)
} }
func init() { T_gmfield_recv.F2 = func(a0 int) int {
	v := body(2, false, nil, &a0)
	return EV[int](v, 0)
} }
func init() { T_gmfield_recv.f3 = func(a0 int) int {
	v := body(3, false, nil, &a0)
	return EV[int](v, 0)
} }
func init() { T_gmfield_recv.F4 = func(a0 int) int {
	v := body(4, false, nil, &a0)
	return EV[int](v, 0)
} }
var T_lit_1 = func(a0 int, a1 interface{}) (int) {
	v := body(1, false, nil, &a0, &a1)
	return EV[int](v, 0)
}
var T_lit_2 = func(a0 int, a1 interface{}) (int) {
	v := body(2, false, nil, &a0, &a1)
	return EV[int](v, 0)
}
var T_lit_3 = func(a0 int, a1 interface{}) (int) {
	v := body(3, false, nil, &a0, &a1)
	return EV[int](v, 0)
}
var T_lit_4 = func(a0 int, a1 interface{}) (int) {
	v := body(4, false, nil, &a0, &a1)
	return EV[int](v, 0)
}
func T_small_1(a0 int8, a1 bool, a2 uint8, a3 [3]int16, a4 struct{ A bool; B int }, a5 int) (int8, bool, int) {
	v := body(1, false, nil, &a0, &a1, &a2, &a3, &a4, &a5)
	return EV[int8](v, 0), EV[bool](v, 1), EV[int](v, 2)
}
func T_small_2(a0 int8, a1 bool, a2 uint8, a3 [3]int16, a4 struct{ A bool; B int }, a5 int) (int8, bool, int) {
	v := body(2, false, nil, &a0, &a1, &a2, &a3, &a4, &a5)
	return EV[int8](v, 0), EV[bool](v, 1), EV[int](v, 2)
}
func T_small_3(a0 int8, a1 bool, a2 uint8, a3 [3]int16, a4 struct{ A bool; B int }, a5 int) (int8, bool, int) {
	v := body(3, false, nil, &a0, &a1, &a2, &a3, &a4, &a5)
	return EV[int8](v, 0), EV[bool](v, 1), EV[int](v, 2)
}
func T_small_4(a0 int8, a1 bool, a2 uint8, a3 [3]int16, a4 struct{ A bool; B int }, a5 int) (int8, bool, int) {
	v := body(4, false, nil, &a0, &a1, &a2, &a3, &a4, &a5)
	return EV[int8](v, 0), EV[bool](v, 1), EV[int](v, 2)
}
func T_fp_1(a0 float64, a1 complex128, a2 float32) (complex128, float64) {
	v := body(1, false, nil, &a0, &a1, &a2)
	return EV[complex128](v, 0), EV[float64](v, 1)
}
func T_fp_2(a0 float64, a1 complex128, a2 float32) (complex128, float64) {
	v := body(2, false, nil, &a0, &a1, &a2)
	return EV[complex128](v, 0), EV[float64](v, 1)
}
func T_fp_3(a0 float64, a1 complex128, a2 float32) (complex128, float64) {
	v := body(3, false, nil, &a0, &a1, &a2)
	return EV[complex128](v, 0), EV[float64](v, 1)
}
func T_fp_4(a0 float64, a1 complex128, a2 float32) (complex128, float64) {
	v := body(4, false, nil, &a0, &a1, &a2)
	return EV[complex128](v, 0), EV[float64](v, 1)
}
func T_named_1(a0 MyInt, a1 MyStr, a2 MyErr) (MyStr, MyInt) {
	v := body(1, false, nil, &a0, &a1, &a2)
	return EV[MyStr](v, 0), EV[MyInt](v, 1)
}
func T_named_2(a0 MyInt, a1 MyStr, a2 MyErr) (MyStr, MyInt) {
	v := body(2, false, nil, &a0, &a1, &a2)
	return EV[MyStr](v, 0), EV[MyInt](v, 1)
}
func T_named_3(a0 MyInt, a1 MyStr, a2 MyErr) (MyStr, MyInt) {
	v := body(3, false, nil, &a0, &a1, &a2)
	return EV[MyStr](v, 0), EV[MyInt](v, 1)
}
func T_named_4(a0 MyInt, a1 MyStr, a2 MyErr) (MyStr, MyInt) {
	v := body(4, false, nil, &a0, &a1, &a2)
	return EV[MyStr](v, 0), EV[MyInt](v, 1)
}
func init() {
	add(&Target{Kind: "plain", Idx: 1, Mk: func() interface{} { return T_plain_1 }, Call: func(x int) int { r0 := T_plain_1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "plain", Idx: 2, Mk: func() interface{} { return T_plain_2 }, Call: func(x int) int { r0 := T_plain_2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "plain", Idx: 3, Mk: func() interface{} { return T_plain_3 }, Call: func(x int) int { r0 := T_plain_3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "plain", Idx: 4, Mk: func() interface{} { return T_plain_4 }, Call: func(x int) int { r0 := T_plain_4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "str2", Idx: 1, Mk: func() interface{} { return T_str2_1 }, Call: func(x int) int { r0, r1 := T_str2_1(EV[string](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "str2", Idx: 2, Mk: func() interface{} { return T_str2_2 }, Call: func(x int) int { r0, r1 := T_str2_2(EV[string](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "str2", Idx: 3, Mk: func() interface{} { return T_str2_3 }, Call: func(x int) int { r0, r1 := T_str2_3(EV[string](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "str2", Idx: 4, Mk: func() interface{} { return T_str2_4 }, Call: func(x int) int { r0, r1 := T_str2_4(EV[string](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "unsafe", Idx: 1, Mk: func() interface{} { return T_unsafe_1 }, Call: func(x int) int { r0 := T_unsafe_1(EV[int64](x, 0), EV[bool](x, 1)); return dres(&r0) }, Generic: false, Unsafe: true, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "unsafe", Idx: 2, Mk: func() interface{} { return T_unsafe_2 }, Call: func(x int) int { r0 := T_unsafe_2(EV[int64](x, 0), EV[bool](x, 1)); return dres(&r0) }, Generic: false, Unsafe: true, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "unsafe", Idx: 3, Mk: func() interface{} { return T_unsafe_3 }, Call: func(x int) int { r0 := T_unsafe_3(EV[int64](x, 0), EV[bool](x, 1)); return dres(&r0) }, Generic: false, Unsafe: true, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "unsafe", Idx: 4, Mk: func() interface{} { return T_unsafe_4 }, Call: func(x int) int { r0 := T_unsafe_4(EV[int64](x, 0), EV[bool](x, 1)); return dres(&r0) }, Generic: false, Unsafe: true, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm", Idx: 1, Mk: func() interface{} { return (*T_ptrm).M1 }, Call: func(x int) int { r0 := T_ptrm_recv.M1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm", Idx: 2, Mk: func() interface{} { return (*T_ptrm).M2 }, Call: func(x int) int { r0 := T_ptrm_recv.M2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm", Idx: 3, Mk: func() interface{} { return (*T_ptrm).M3 }, Call: func(x int) int { r0 := T_ptrm_recv.M3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm", Idx: 4, Mk: func() interface{} { return (*T_ptrm).M4 }, Call: func(x int) int { r0 := T_ptrm_recv.M4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm2", Idx: 1, Mk: func() interface{} { return (*T_ptrm2).M1 }, Call: func(x int) int { r0, r1 := T_ptrm2_recv.M1(EV[bool](x, 0), EV[string](x, 1), EV[[]int](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm2", Idx: 2, Mk: func() interface{} { return (*T_ptrm2).M2 }, Call: func(x int) int { r0, r1 := T_ptrm2_recv.M2(EV[bool](x, 0), EV[string](x, 1), EV[[]int](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm2", Idx: 3, Mk: func() interface{} { return (*T_ptrm2).M3 }, Call: func(x int) int { r0, r1 := T_ptrm2_recv.M3(EV[bool](x, 0), EV[string](x, 1), EV[[]int](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "ptrm2", Idx: 4, Mk: func() interface{} { return (*T_ptrm2).M4 }, Call: func(x int) int { r0, r1 := T_ptrm2_recv.M4(EV[bool](x, 0), EV[string](x, 1), EV[[]int](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_ptrm2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "valm", Idx: 1, Mk: func() interface{} { return T_valm.M1 }, Call: func(x int) int { r0, r1 := T_valm_recv.M1(EV[int](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_valm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "valm", Idx: 2, Mk: func() interface{} { return T_valm.M2 }, Call: func(x int) int { r0, r1 := T_valm_recv.M2(EV[int](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_valm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "valm", Idx: 3, Mk: func() interface{} { return T_valm.M3 }, Call: func(x int) int { r0, r1 := T_valm_recv.M3(EV[int](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_valm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "valm", Idx: 4, Mk: func() interface{} { return T_valm.M4 }, Call: func(x int) int { r0, r1 := T_valm_recv.M4(EV[int](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_valm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad", Idx: 1, Mk: func() interface{} { return T_variad_1 }, Call: func(x int) int { r0 := T_variad_1(EV[int](x, 0), EV[[]string](x, 1)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad", Idx: 2, Mk: func() interface{} { return T_variad_2 }, Call: func(x int) int { r0 := T_variad_2(EV[int](x, 0), EV[[]string](x, 1)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad", Idx: 3, Mk: func() interface{} { return T_variad_3 }, Call: func(x int) int { r0 := T_variad_3(EV[int](x, 0), EV[[]string](x, 1)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad", Idx: 4, Mk: func() interface{} { return T_variad_4 }, Call: func(x int) int { r0 := T_variad_4(EV[int](x, 0), EV[[]string](x, 1)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad2", Idx: 1, Mk: func() interface{} { return (*T_variad2).M1 }, Call: func(x int) int { r0 := T_variad2_recv.M1(EV[[]string](x, 0)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_variad2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad2", Idx: 2, Mk: func() interface{} { return (*T_variad2).M2 }, Call: func(x int) int { r0 := T_variad2_recv.M2(EV[[]string](x, 0)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_variad2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad2", Idx: 3, Mk: func() interface{} { return (*T_variad2).M3 }, Call: func(x int) int { r0 := T_variad2_recv.M3(EV[[]string](x, 0)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_variad2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad2", Idx: 4, Mk: func() interface{} { return (*T_variad2).M4 }, Call: func(x int) int { r0 := T_variad2_recv.M4(EV[[]string](x, 0)...); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_variad2_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad3", Idx: 1, Mk: func() interface{} { return T_variad3.M1 }, Call: func(x int) int { r0, r1 := T_variad3_recv.M1(EV[float64](x, 0), EV[[]interface{}](x, 1)...); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_variad3_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad3", Idx: 2, Mk: func() interface{} { return T_variad3.M2 }, Call: func(x int) int { r0, r1 := T_variad3_recv.M2(EV[float64](x, 0), EV[[]interface{}](x, 1)...); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_variad3_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad3", Idx: 3, Mk: func() interface{} { return T_variad3.M3 }, Call: func(x int) int { r0, r1 := T_variad3_recv.M3(EV[float64](x, 0), EV[[]interface{}](x, 1)...); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_variad3_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "variad3", Idx: 4, Mk: func() interface{} { return T_variad3.M4 }, Call: func(x int) int { r0, r1 := T_variad3_recv.M4(EV[float64](x, 0), EV[[]interface{}](x, 1)...); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_variad3_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "many", Idx: 1, Mk: func() interface{} { return T_many_1 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10 := T_many_1(EV[int](x, 0), EV[float64](x, 1), EV[string](x, 2), EV[int8](x, 3), EV[uint16](x, 4), EV[float32](x, 5), EV[int64](x, 6), EV[bool](x, 7), EV[[]byte](x, 8), EV[error](x, 9), EV[uint64](x, 10), EV[int32](x, 11), EV[string](x, 12), EV[float64](x, 13)); return dres(&r0, &r1, &r2, &r3, &r4, &r5, &r6, &r7, &r8, &r9, &r10) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "many", Idx: 2, Mk: func() interface{} { return T_many_2 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10 := T_many_2(EV[int](x, 0), EV[float64](x, 1), EV[string](x, 2), EV[int8](x, 3), EV[uint16](x, 4), EV[float32](x, 5), EV[int64](x, 6), EV[bool](x, 7), EV[[]byte](x, 8), EV[error](x, 9), EV[uint64](x, 10), EV[int32](x, 11), EV[string](x, 12), EV[float64](x, 13)); return dres(&r0, &r1, &r2, &r3, &r4, &r5, &r6, &r7, &r8, &r9, &r10) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "many", Idx: 3, Mk: func() interface{} { return T_many_3 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10 := T_many_3(EV[int](x, 0), EV[float64](x, 1), EV[string](x, 2), EV[int8](x, 3), EV[uint16](x, 4), EV[float32](x, 5), EV[int64](x, 6), EV[bool](x, 7), EV[[]byte](x, 8), EV[error](x, 9), EV[uint64](x, 10), EV[int32](x, 11), EV[string](x, 12), EV[float64](x, 13)); return dres(&r0, &r1, &r2, &r3, &r4, &r5, &r6, &r7, &r8, &r9, &r10) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "many", Idx: 4, Mk: func() interface{} { return T_many_4 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10 := T_many_4(EV[int](x, 0), EV[float64](x, 1), EV[string](x, 2), EV[int8](x, 3), EV[uint16](x, 4), EV[float32](x, 5), EV[int64](x, 6), EV[bool](x, 7), EV[[]byte](x, 8), EV[error](x, 9), EV[uint64](x, 10), EV[int32](x, 11), EV[string](x, 12), EV[float64](x, 13)); return dres(&r0, &r1, &r2, &r3, &r4, &r5, &r6, &r7, &r8, &r9, &r10) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "big", Idx: 1, Mk: func() interface{} { return T_big_1 }, Call: func(x int) int { r0, r1 := T_big_1(EV[Big](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "big", Idx: 2, Mk: func() interface{} { return T_big_2 }, Call: func(x int) int { r0, r1 := T_big_2(EV[Big](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "big", Idx: 3, Mk: func() interface{} { return T_big_3 }, Call: func(x int) int { r0, r1 := T_big_3(EV[Big](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "big", Idx: 4, Mk: func() interface{} { return T_big_4 }, Call: func(x int) int { r0, r1 := T_big_4(EV[Big](x, 0), EV[int](x, 1)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "bigm", Idx: 1, Mk: func() interface{} { return T_bigm.M1 }, Call: func(x int) int { r0, r1 := T_bigm_recv.M1(EV[Big](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_bigm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "bigm", Idx: 2, Mk: func() interface{} { return T_bigm.M2 }, Call: func(x int) int { r0, r1 := T_bigm_recv.M2(EV[Big](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_bigm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "bigm", Idx: 3, Mk: func() interface{} { return T_bigm.M3 }, Call: func(x int) int { r0, r1 := T_bigm_recv.M3(EV[Big](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_bigm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "bigm", Idx: 4, Mk: func() interface{} { return T_bigm.M4 }, Call: func(x int) int { r0, r1 := T_bigm_recv.M4(EV[Big](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_bigm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "refs", Idx: 1, Mk: func() interface{} { return T_refs_1 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5 := T_refs_1(EV[interface{}](x, 0), EV[func(int) int](x, 1), EV[map[string]int](x, 2), EV[chan int](x, 3), EV[*Small](x, 4), EV[[]string](x, 5), EV[int](x, 6)); return dres(&r0, &r1, &r2, &r3, &r4, &r5) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "refs", Idx: 2, Mk: func() interface{} { return T_refs_2 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5 := T_refs_2(EV[interface{}](x, 0), EV[func(int) int](x, 1), EV[map[string]int](x, 2), EV[chan int](x, 3), EV[*Small](x, 4), EV[[]string](x, 5), EV[int](x, 6)); return dres(&r0, &r1, &r2, &r3, &r4, &r5) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "refs", Idx: 3, Mk: func() interface{} { return T_refs_3 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5 := T_refs_3(EV[interface{}](x, 0), EV[func(int) int](x, 1), EV[map[string]int](x, 2), EV[chan int](x, 3), EV[*Small](x, 4), EV[[]string](x, 5), EV[int](x, 6)); return dres(&r0, &r1, &r2, &r3, &r4, &r5) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "refs", Idx: 4, Mk: func() interface{} { return T_refs_4 }, Call: func(x int) int { r0, r1, r2, r3, r4, r5 := T_refs_4(EV[interface{}](x, 0), EV[func(int) int](x, 1), EV[map[string]int](x, 2), EV[chan int](x, 3), EV[*Small](x, 4), EV[[]string](x, 5), EV[int](x, 6)); return dres(&r0, &r1, &r2, &r3, &r4, &r5) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "gen", Idx: 1, Mk: func() interface{} { return T_gen_1[string] }, Call: func(x int) int { r0, r1 := T_gen_1[string](EV[int](x, 0), EV[string](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[string]()), Amb: false})
	add(&Target{Kind: "gen", Idx: 2, Mk: func() interface{} { return T_gen_2[string] }, Call: func(x int) int { r0, r1 := T_gen_2[string](EV[int](x, 0), EV[string](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[string]()), Amb: false})
	add(&Target{Kind: "gen", Idx: 3, Mk: func() interface{} { return T_gen_3[string] }, Call: func(x int) int { r0, r1 := T_gen_3[string](EV[int](x, 0), EV[string](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[string]()), Amb: false})
	add(&Target{Kind: "gen", Idx: 4, Mk: func() interface{} { return T_gen_4[string] }, Call: func(x int) int { r0, r1 := T_gen_4[string](EV[int](x, 0), EV[string](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[string]()), Amb: false})
	add(&Target{Kind: "genp", Idx: 1, Mk: func() interface{} { return T_genp_1[*Small] }, Call: func(x int) int { r0 := T_genp_1[*Small](EV[*Small](x, 0), EV[int](x, 1)); return dres(&r0) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[*Small]()), Amb: false})
	add(&Target{Kind: "genp", Idx: 2, Mk: func() interface{} { return T_genp_2[*Small] }, Call: func(x int) int { r0 := T_genp_2[*Small](EV[*Small](x, 0), EV[int](x, 1)); return dres(&r0) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[*Small]()), Amb: false})
	add(&Target{Kind: "genp", Idx: 3, Mk: func() interface{} { return T_genp_3[*Small] }, Call: func(x int) int { r0 := T_genp_3[*Small](EV[*Small](x, 0), EV[int](x, 1)); return dres(&r0) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[*Small]()), Amb: false})
	add(&Target{Kind: "genp", Idx: 4, Mk: func() interface{} { return T_genp_4[*Small] }, Call: func(x int) int { r0 := T_genp_4[*Small](EV[*Small](x, 0), EV[int](x, 1)); return dres(&r0) }, Generic: true, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: typs(TY[*Small]()), Amb: false})
	add(&Target{Kind: "genm", Idx: 1, Mk: func() interface{} { return (*T_genm[float64]).M1 }, Call: func(x int) int { r0, r1 := T_genm_recv.M1(EV[int](x, 0), EV[float64](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: true, Recv: rv(T_genm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "genm", Idx: 2, Mk: func() interface{} { return (*T_genm[float64]).M2 }, Call: func(x int) int { r0, r1 := T_genm_recv.M2(EV[int](x, 0), EV[float64](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: true, Recv: rv(T_genm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "genm", Idx: 3, Mk: func() interface{} { return (*T_genm[float64]).M3 }, Call: func(x int) int { r0, r1 := T_genm_recv.M3(EV[int](x, 0), EV[float64](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: true, Recv: rv(T_genm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "genm", Idx: 4, Mk: func() interface{} { return (*T_genm[float64]).M4 }, Call: func(x int) int { r0, r1 := T_genm_recv.M4(EV[int](x, 0), EV[float64](x, 1)); return dres(&r0, &r1) }, Generic: true, Unsafe: false, HasRecv: true, Recv: rv(T_genm_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "zero", Idx: 1, Mk: func() interface{} { return T_zero_1 }, Call: func(x int) int { r0 := T_zero_1(); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: true})
	add(&Target{Kind: "zero", Idx: 2, Mk: func() interface{} { return T_zero_2 }, Call: func(x int) int { r0 := T_zero_2(); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: true})
	add(&Target{Kind: "zero", Idx: 3, Mk: func() interface{} { return T_zero_3 }, Call: func(x int) int { r0 := T_zero_3(); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: true})
	add(&Target{Kind: "zero", Idx: 4, Mk: func() interface{} { return T_zero_4 }, Call: func(x int) int { r0 := T_zero_4(); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: true})
	add(&Target{Kind: "gmp", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(&T_gmp_recv, "M1") }, Call: func(x int) int { r0 := T_gmp_recv.M1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmp_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmp", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(&T_gmp_recv, "M2") }, Call: func(x int) int { r0 := T_gmp_recv.M2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmp_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmp", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(&T_gmp_recv, "M3") }, Call: func(x int) int { r0 := T_gmp_recv.M3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmp_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmp", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(&T_gmp_recv, "M4") }, Call: func(x int) int { r0 := T_gmp_recv.M4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmp_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmv", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(T_gmv_recv, "M1") }, Call: func(x int) int { r0, r1 := T_gmv_recv.M1(EV[string](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmv", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(T_gmv_recv, "M2") }, Call: func(x int) int { r0, r1 := T_gmv_recv.M2(EV[string](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmv", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(T_gmv_recv, "M3") }, Call: func(x int) int { r0, r1 := T_gmv_recv.M3(EV[string](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmv", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(T_gmv_recv, "M4") }, Call: func(x int) int { r0, r1 := T_gmv_recv.M4(EV[string](x, 0)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmpriv", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(&T_gmpriv_recv, "m1") }, Call: func(x int) int { r0 := T_gmpriv_recv.m1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmpriv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmpriv", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(&T_gmpriv_recv, "m2") }, Call: func(x int) int { r0 := T_gmpriv_recv.m2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmpriv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmpriv", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(&T_gmpriv_recv, "m3") }, Call: func(x int) int { r0 := T_gmpriv_recv.m3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmpriv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmpriv", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(&T_gmpriv_recv, "m4") }, Call: func(x int) int { r0 := T_gmpriv_recv.m4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(&T_gmpriv_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmnest", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(T_gmnest_outer, "M1") }, Call: func(x int) int { r0 := T_gmnest_outer.M1(EV[int](x, 0), EV[string](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmnest_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmnest", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(T_gmnest_outer, "M2") }, Call: func(x int) int { r0 := T_gmnest_outer.M2(EV[int](x, 0), EV[string](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmnest_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmnest", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(T_gmnest_outer, "M3") }, Call: func(x int) int { r0 := T_gmnest_outer.M3(EV[int](x, 0), EV[string](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmnest_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmnest", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(T_gmnest_outer, "M4") }, Call: func(x int) int { r0 := T_gmnest_outer.M4(EV[int](x, 0), EV[string](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmnest_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmiface", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(T_gmiface_outer, "M1") }, Call: func(x int) int { r0 := T_gmiface_recv.M1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmiface_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmiface", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(T_gmiface_outer, "M2") }, Call: func(x int) int { r0 := T_gmiface_recv.M2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmiface_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmiface", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(T_gmiface_outer, "M3") }, Call: func(x int) int { r0 := T_gmiface_recv.M3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmiface_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmiface", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(T_gmiface_outer, "M4") }, Call: func(x int) int { r0 := T_gmiface_recv.M4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: true, Recv: rv(T_gmiface_recv), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmfield", Idx: 1, Mk: func() interface{} { return mockey.GetMethod(T_gmfield_recv, "f1") }, Call: func(x int) int { r0 := T_gmfield_recv.f1(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmfield", Idx: 2, Mk: func() interface{} { return mockey.GetMethod(T_gmfield_recv, "F2") }, Call: func(x int) int { r0 := T_gmfield_recv.F2(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmfield", Idx: 3, Mk: func() interface{} { return mockey.GetMethod(T_gmfield_recv, "f3") }, Call: func(x int) int { r0 := T_gmfield_recv.f3(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "gmfield", Idx: 4, Mk: func() interface{} { return mockey.GetMethod(T_gmfield_recv, "F4") }, Call: func(x int) int { r0 := T_gmfield_recv.F4(EV[int](x, 0)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "lit", Idx: 1, Mk: func() interface{} { return T_lit_1 }, Call: func(x int) int { r0 := T_lit_1(EV[int](x, 0), EV[interface{}](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "lit", Idx: 2, Mk: func() interface{} { return T_lit_2 }, Call: func(x int) int { r0 := T_lit_2(EV[int](x, 0), EV[interface{}](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "lit", Idx: 3, Mk: func() interface{} { return T_lit_3 }, Call: func(x int) int { r0 := T_lit_3(EV[int](x, 0), EV[interface{}](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "lit", Idx: 4, Mk: func() interface{} { return T_lit_4 }, Call: func(x int) int { r0 := T_lit_4(EV[int](x, 0), EV[interface{}](x, 1)); return dres(&r0) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "small", Idx: 1, Mk: func() interface{} { return T_small_1 }, Call: func(x int) int { r0, r1, r2 := T_small_1(EV[int8](x, 0), EV[bool](x, 1), EV[uint8](x, 2), EV[[3]int16](x, 3), EV[struct{ A bool; B int }](x, 4), EV[int](x, 5)); return dres(&r0, &r1, &r2) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "small", Idx: 2, Mk: func() interface{} { return T_small_2 }, Call: func(x int) int { r0, r1, r2 := T_small_2(EV[int8](x, 0), EV[bool](x, 1), EV[uint8](x, 2), EV[[3]int16](x, 3), EV[struct{ A bool; B int }](x, 4), EV[int](x, 5)); return dres(&r0, &r1, &r2) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "small", Idx: 3, Mk: func() interface{} { return T_small_3 }, Call: func(x int) int { r0, r1, r2 := T_small_3(EV[int8](x, 0), EV[bool](x, 1), EV[uint8](x, 2), EV[[3]int16](x, 3), EV[struct{ A bool; B int }](x, 4), EV[int](x, 5)); return dres(&r0, &r1, &r2) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "small", Idx: 4, Mk: func() interface{} { return T_small_4 }, Call: func(x int) int { r0, r1, r2 := T_small_4(EV[int8](x, 0), EV[bool](x, 1), EV[uint8](x, 2), EV[[3]int16](x, 3), EV[struct{ A bool; B int }](x, 4), EV[int](x, 5)); return dres(&r0, &r1, &r2) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "fp", Idx: 1, Mk: func() interface{} { return T_fp_1 }, Call: func(x int) int { r0, r1 := T_fp_1(EV[float64](x, 0), EV[complex128](x, 1), EV[float32](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "fp", Idx: 2, Mk: func() interface{} { return T_fp_2 }, Call: func(x int) int { r0, r1 := T_fp_2(EV[float64](x, 0), EV[complex128](x, 1), EV[float32](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "fp", Idx: 3, Mk: func() interface{} { return T_fp_3 }, Call: func(x int) int { r0, r1 := T_fp_3(EV[float64](x, 0), EV[complex128](x, 1), EV[float32](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "fp", Idx: 4, Mk: func() interface{} { return T_fp_4 }, Call: func(x int) int { r0, r1 := T_fp_4(EV[float64](x, 0), EV[complex128](x, 1), EV[float32](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "named", Idx: 1, Mk: func() interface{} { return T_named_1 }, Call: func(x int) int { r0, r1 := T_named_1(EV[MyInt](x, 0), EV[MyStr](x, 1), EV[MyErr](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "named", Idx: 2, Mk: func() interface{} { return T_named_2 }, Call: func(x int) int { r0, r1 := T_named_2(EV[MyInt](x, 0), EV[MyStr](x, 1), EV[MyErr](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "named", Idx: 3, Mk: func() interface{} { return T_named_3 }, Call: func(x int) int { r0, r1 := T_named_3(EV[MyInt](x, 0), EV[MyStr](x, 1), EV[MyErr](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
	add(&Target{Kind: "named", Idx: 4, Mk: func() interface{} { return T_named_4 }, Call: func(x int) int { r0, r1 := T_named_4(EV[MyInt](x, 0), EV[MyStr](x, 1), EV[MyErr](x, 2)); return dres(&r0, &r1) }, Generic: false, Unsafe: false, HasRecv: false, Recv: rv(nil), TArgs: nil, Amb: false})
}

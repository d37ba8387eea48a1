/* hand-written descriptions of a few C types (what the generator would emit) */
#include "metac/reflect.h"
#include "metac/backend/entry.h"
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#define BT(v,n,s,e) static metac_entry_t v = {.kind=METAC_KND_base_type,.name=n,.base_type_info={.byte_size=s,.encoding=e}}
#define PT(v,t) static metac_entry_t v = {.kind=METAC_KND_pointer_type,.base_type_info={0},.pointer_type_info={.byte_size=sizeof(void*),.type=t}}
#define MB(n,t,S) {.kind=METAC_KND_member,.name=#n,.member_info={.type=t,.byte_offset=offsetof(S,n)}}
#pragma GCC diagnostic ignored "-Wunused-variable"
#pragma GCC diagnostic ignored "-Woverride-init"
BT(e_char,"char",1,METAC_ENC_signed_char);
BT(e_uchar,"unsigned char",1,METAC_ENC_unsigned_char);
BT(e_short,"short int",sizeof(short),METAC_ENC_signed);
BT(e_int,"int",sizeof(int),METAC_ENC_signed);
BT(e_uint,"unsigned int",sizeof(int),METAC_ENC_unsigned);
BT(e_long,"long int",sizeof(long),METAC_ENC_signed);
BT(e_ulong,"unsigned long int",sizeof(long),METAC_ENC_unsigned);
BT(e_double,"double",sizeof(double),METAC_ENC_float);
PT(e_pchar,&e_char);
PT(e_pint,&e_int);
PT(e_pvoid,NULL);
/* struct with a counted array */
struct cnt { int *arr; int count; };
static metac_entry_t m_cnt[] = {MB(arr,&e_pint,struct cnt), MB(count,&e_int,struct cnt)};
static metac_entry_t e_cnt = {.kind=METAC_KND_struct_type,.name="cnt",.structure_type_info={.byte_size=sizeof(struct cnt),.members_count=2,.members=m_cnt}};
/* list */
struct lst { int v; struct lst *next; };
static metac_entry_t e_lst;
PT(e_plst,&e_lst);
static metac_entry_t m_lst[] = {MB(v,&e_int,struct lst), MB(next,&e_plst,struct lst)};
static metac_entry_t e_lst = {.kind=METAC_KND_struct_type,.name="lst",.structure_type_info={.byte_size=sizeof(struct lst),.members_count=2,.members=m_lst}};
/* struct with two pointers */
struct two { int *a; int *b; };
static metac_entry_t m_two[] = {MB(a,&e_pint,struct two), MB(b,&e_pint,struct two)};
static metac_entry_t e_two = {.kind=METAC_KND_struct_type,.name="two",.structure_type_info={.byte_size=sizeof(struct two),.members_count=2,.members=m_two}};
/* arrays */
static metac_entry_t e_arr3 = {.kind=METAC_KND_array_type,.array_type_info={.type=&e_int,.count=3}};
/* enum */
static struct metac_type_enumerator_info en_items[] = {{"en_a",0},{"en_b",1},{"en_c",7}};
static metac_entry_t e_enum = {.kind=METAC_KND_enumeration_type,.name="en",.enumeration_type_info={.type=&e_uint,.byte_size=4,.encoding=METAC_ENC_unsigned,.enumerators_count=3,.enumerators=en_items}};
/* typedef / const */
static metac_entry_t e_tint = {.kind=METAC_KND_typedef,.name="tint",.typedef_info={.type=&e_int}};
static metac_entry_t e_cint = {.kind=METAC_KND_const_type,.qual_type_info={.type=&e_int}};
/* function */
static metac_entry_t pr_fn[] = {
    {.kind=METAC_KND_func_parameter,.name="a",.func_parameter_info={.type=&e_int}},
    {.kind=METAC_KND_func_parameter,.name="b",.func_parameter_info={.type=&e_pchar}},
};
static metac_entry_t e_fn = {.kind=METAC_KND_subprogram,.name="fn",.subprogram_info={.type=&e_int,.parameters_count=2,.parameters=pr_fn}};

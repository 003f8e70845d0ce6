from mkseed import seed
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)

S("S01", "C01", [("util/vec.c", """	size_t bytes = (const char*)vec_at(self, self->_alloc - 1) - (const char*)back;
	self->size -= vec_iter_size_(self, begin, back);
	memmove(begin, (char*)back + self->_elem_size, bytes);""",
"""	self->size -= vec_iter_size_(self, begin, back);
	if ((const char*)vec_end(self) > (const char*)back) {
		size_t bytes = (const char*)vec_end(self) - (const char*)back;
		memmove(begin, (char*)back + self->_elem_size, bytes);
	}""")],
r'''
#include "vec.h"
#include "util.h"
int main(void){
	vec* v=new_t_(vec,int);
	for(int i=0;i<6;++i)vec_push_back(v,&i);
	vec_erase_at(v,1,2);
	int want[]={0,3,4,5};
	if(v->size!=4)return 1;
	for(int i=0;i<4;++i)if(*(int*)vec_at(v,i)!=want[i])return 1;
	return 0;
}''', "erasing a run of two or more elements that has elements behind it", "the elements behind an erased run are not all moved down")

S("S02", "C02", [("util/stringy.c", """	/* unnecessary optimization */
	if (newlen == oldlen) {
		memcpy(pos, newstr, newlen);
		return pos + newlen;
	}

	size_t pos_idx""", """	/* unnecessary optimization */
	if (newlen == oldlen) {
		memcpy(pos, newstr, newlen);
		return pos + 1;
	}

	size_t pos_idx""")],
r'''
#include "stringy.h"
#include "util.h"
int main(void){
	string* s=string_from_char_ptr("abb");
	string_find_replace(s,"ab","ca");
	return strcmp(string_c_str(s),"cab")!=0;
}''', "a replacement as long as the search text whose tail, with what follows, forms the search text again", "replaced text is searched again")

S("S03", "C03", [("util/hashmap.c", """		*keyptr = tolower(key[i]);
		hash *= _PRIME;
		hash ^= (uint64_t)*keyptr;
		if (*keyptr != ' ') {""", """		*keyptr = tolower(key[i]);
		hash *= _PRIME;
		hash ^= (uint64_t)*keyptr;
		if (!isspace(*keyptr)) {""")],
r'''
#include "hashmap.h"
#include "stringview.h"
#include "util.h"
int main(void){
	hashmap* m=new_(hashmap,sizeof(int),8,HASHMAP_PROP_NOCASE|HASHMAP_PROP_RTRIM);
	int one=1;
	hashmap_set(m,"a\t",&one);
	stringview a,b; stringview_set(&a,"a"); stringview_set(&b,"a\t");
	int same=stringview_compare_nocase_rtrim(&a,&b)==0;
	return (hashmap_get(m,"a")!=NULL)!=same;
}''', "a key ending in white space other than a blank, in the mode without case and padding", "keys that compare different are the same key")

S("S04", "C04", [("util/hashmap.c", """void hashmap_clear(hashmap* self)
{
	vec_clear(self->values);
	self->_keybuf_head = 0;
	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);""", """void hashmap_clear(hashmap* self)
{
	memset(self->_entries, -1, sizeof(struct hm_entry) * self->values->size);
	vec_clear(self->values);
	self->_keybuf_head = 0;""")],
r'''
#include "hashmap.h"
#include "util.h"
int main(void){
	hashmap* m=new_(hashmap,sizeof(int),64,0);
	char k[2]="a"; int v=1;
	for(k[0]='a';k[0]<='h';++k[0])hashmap_set(m,k,&v);
	hashmap_clear(m);
	for(k[0]='a';k[0]<='h';++k[0])if(hashmap_get(m,k)!=NULL)return 1;
	return 0;
}''', "a lookup after clearing a map that has room left", "entries survive a clear")

S("S05", "C05", [("util/hashmap.c", """		vec_push_back(&new_vec, data);
		vec_push_back(self->values, &new_vec);
		if (self->values->size > _FULL_PERCENT * self->_limit) {
			_increase_size(self);
		}
""", """		vec_push_back(&new_vec, data);
		if (self->values->size > _FULL_PERCENT * self->_limit) {
			_increase_size(self);
		}
		vec_push_back(self->values, &new_vec);
""")],
r'''
#include "hashmap.h"
#include "util.h"
int main(void){
	multimap* m=new_(multimap,sizeof(int),4,0);
	int v=1;
	multimap_set(m,"a",&v); multimap_set(m,"b",&v); multimap_set(m,"c",&v); multimap_set(m,"d",&v);
	return multimap_get(m,"e")!=NULL;
}''', "a small map filled to the last place, then a lookup of a missing key", "the lookup never ends")

S("S06", "C06", [("util/fifo.c", """	pthread_mutex_unlock(&self->head_mutex);

	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}
""", """	pthread_mutex_unlock(&self->head_mutex);

	vec_resize(src, src->size - transfer_count);
}
""")],
r'''
#include "fifo.h"
#include "util.h"
int main(void){
	fifo* f=new_t_(fifo,int,4);
	f->input_count=1;
	vec* v=new_t_(vec,int);
	for(int i=0;i<6;++i)vec_push_back(v,&i);
	for(int want=0;want<6;){
		fifo_nadd(f,v);
		while(!fifo_is_empty(f)){ if(*(int*)fifo_get(f)!=want)return 1; ++want; }
	}
	return 0;
}''', "a block that does not fit in the queue at once", "the rest of the block is not what was left out")

S("S07", "C07", [("util/fifo.c", """void fifo_consume(fifo* restrict self)
{
	pthread_mutex_lock(&self->tail_mutex);
	_idx_adv_(self->tail);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);""", """void fifo_consume(fifo* restrict self)
{
	pthread_mutex_lock(&self->tail_mutex);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);
	_idx_adv_(self->tail);""")],
r'''
#include "fifo.h"
#include "util.h"
#include <dlfcn.h>
#include <signal.h>
static __thread int slow;
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	static int (*real)(pthread_mutex_t*);
	if(!real)real=dlsym(RTLD_NEXT,"pthread_mutex_unlock");
	int r=real(m);
	if(slow)usleep(20000);
	return r;
}
static fifo* f;
static void* prod(void* x)
{
	for(int i=0;i<8;++i){ fifo_wait_for_get(f); fifo_add(f,&i); }
	fifo_set_open(f,0);
	return NULL;
}
static void die(int s){ _exit(1); }
int main(void){
	f=new_t_(fifo,int,2);
	f->input_count=1;
	signal(SIGALRM,die);
	alarm(15);
	pthread_t t; 
	pthread_create(&t,NULL,prod,NULL);
	slow=1;
	int want=0;
	for(;;){
		fifo_wait_for_add(f);
		if(fifo_is_empty(f))break;
		usleep(20000);
		if(*(int*)fifo_peek(f)!=want++)return 1;
		fifo_consume(f);
	}
	return want!=8;
}''', "the producer waiting on a full queue runs between the consumer's signal and its advance", "the producer's wake-up is lost and both sides sleep for ever", asan=False)

S("S08", "C07", [("util/fifo.c", """	self->head = new_head;

	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);

	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}
""", """	self->head = new_head;

	pthread_cond_signal(&self->cond_add);
	pthread_mutex_unlock(&self->head_mutex);

	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}
""")],
r'''
#include "fifo.h"
#include "util.h"
#include <signal.h>
static fifo *f,*g;
static void* cons(void* x)
{
	fifo_wait_for_add_either(f,g);
	return NULL;
}
static void die(int s){ _exit(1); }
int main(void){
	f=new_t_(fifo,int,4); g=new_t_(fifo,int,4);
	f->input_count=g->input_count=1;
	signal(SIGALRM,die);
	alarm(5);
	pthread_t t;
	pthread_create(&t,NULL,cons,NULL);
	usleep(300000);
	vec* v=new_t_(vec,int); int one=1; vec_push_back(v,&one);
	fifo_nadd(f,v);
	pthread_join(t,NULL);
	return 0;
}''', "a consumer asleep on either of two queues when a block is added to the first", "block additions do not wake it")

S("S09", "C08", [("util/dgraph.c", """		if ((*it)->out[0] == *node) {
			(*it)->out[0] = NULL;
		}
		if ((*it)->out[1] == *node) {""", """		if ((*it)->out[0] == *node) {
			(*it)->out[0] = NULL;
		} else if ((*it)->out[1] == *node) {""")],
r'''
#include "dgraph.h"
#include "util.h"
int main(void){
	dgraph* g=new_(dgraph);
	dnode* a=dgraph_add_data(g,"a"); dnode* b=dgraph_add_data(g,"b");
	a->is_root=true; a->out[0]=a->out[1]=b;
	dgraph_remove(g,vec_at(g->nodes,1));
	return a->out[0]!=NULL||a->out[1]!=NULL;
}''', "removing a node that is both successors of the same node", "an edge to the removed node stays")

S("S10", "C09", [("util/node.c", """	export->next = NULL;
	export->prev = NULL;

	return export;""", """	export->next = NULL;

	return export;""")],
r'''
#include "node.h"
#include "util.h"
int main(void){
	node* h=NULL;
	node_enqueue(&h,(void*)1L); node_enqueue(&h,(void*)2L);
	node* x=node_export(node_at(h,1));
	node_pop(&h);
	node* other=NULL;
	node_enqueue_import(&other,x);
	return node_front(other)!=x;
}''', "exporting a node that has a predecessor and re-importing it into an empty queue", "the node still points back into the old list")

S("S11", "C09", [("util/flex.c", """	if (pair->idx + pair->len == self->_raw.size) {
		vec_resize(&self->_raw, pair->idx);
	}""", """	vec_resize(&self->_raw, pair->idx);""")],
r'''
#include "flex.h"
#include "util.h"
int main(void){
	flex f; flex_construct(&f);
	flex_push_back(&f,"aa",2);
	flex_insert(&f,0,"bb",2);
	flex_pop_back(&f);
	flex_push_back(&f,"cccc",4);
	stringview v=flex_pair_at(&f,0);
	return v.len!=2||memcmp(v.data,"bb",2);
}''', "popping a block whose bytes are not the last stored, then storing another", "another block's bytes are overwritten")

S("S12", "C04", [("util/hashmap.c", """		while (dest_entry->val_idx != _NONE) {
			idx = (idx + 1) % self->_limit;
			dest_entry""", """		while (dest_entry->val_idx != _NONE) {
			idx = (idx + 1) % old_limit;
			dest_entry""")],
r'''
#include "hashmap.h"
#include "util.h"
int main(void){
	for(int lim=1;lim<=8;lim*=2)for(int base=0;base<200;++base){
		hashmap* m=new_(hashmap,sizeof(int),lim,0);
		char k[8];
		for(int i=0;i<12;++i){ sprintf(k,"%d",base+i*3); hashmap_set(m,k,&i); }
		for(int i=0;i<12;++i){ sprintf(k,"%d",base+i*3); int* p=hashmap_get(m,k); if(!p||*p!=i)return 1; }
	}
	return 0;
}''', "two keys that collide in the upper half of the grown table", "a key is not found after the map has grown")

/* the event queue is known to the functions under contract by its contract (P13) */
pqueue_tag_element_t* vf_peek(pqueue_tag_t* q);
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q);
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e);
size_t vf_size(pqueue_tag_t* q);
#define pqueue_tag_peek vf_peek
#define pqueue_tag_pop vf_pop
#define pqueue_tag_insert vf_insert
#define pqueue_tag_size vf_size

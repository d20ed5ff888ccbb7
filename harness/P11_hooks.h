/* the event queue and the release of payloads are known to the functions under contract by their contracts (P13, P16) */
pqueue_tag_element_t* vf_find(pqueue_tag_t* q, pqueue_tag_element_t* e);
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e);
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q);
token_freed vf_done_using(lf_token_t* t);
#define pqueue_tag_find_equal_same_tag vf_find
#define pqueue_tag_insert vf_insert
#define pqueue_tag_pop vf_pop
#define _lf_done_using vf_done_using

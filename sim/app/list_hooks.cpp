// libstdc++ links and unlinks the nodes of a std::list in its shared library,
// where no access is a scheduling point. The same steps, instrumented (see
// the --wrap options in build.py).
namespace {
struct Node
{
    Node* next;
    Node* prev;
};
} // namespace

extern "C" {
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(Node* self, Node* pos)
{
    self->next      = pos;
    self->prev      = pos->prev;
    pos->prev->next = self;
    pos->prev       = self;
}
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(Node* self)
{
    Node* n = self->next;
    Node* p = self->prev;
    p->next = n;
    n->prev = p;
}
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(Node* self, Node* first, Node* last)
{
    if (self == last) return;
    last->prev->next  = self;
    first->prev->next = last;
    self->prev->next  = first;
    Node* tmp         = self->prev;
    self->prev        = last->prev;
    last->prev        = first->prev;
    first->prev       = tmp;
}
}

SEEDS = {
's09_insert_shift': dict(property='C09', needs='an insertion before a tail that is shorter than the inserted section', breaks='the tail behind the insertion point is overwritten instead of moved up',
  edits=[('include/array.h', "				if (num_elements > pos)		// Move data up (by assigning elements)\n", "				if (num_elements-pos >= num)	// Move data up (by assigning elements)\n")],
  demo='''
#include <array.h>
#include <stdio.h>
int main() { int x[] = {1,2,3,4}, y[] = {7,8,9}; Array<int> a(x, 4), b(y, 3); a.insert(3, b); printf("%d %d\\n", a.length(), a[6]); return a.length() == 7 && a[3] == 7 && a[6] == 4 ? 0 : 1; }
'''),
's09_plus_identity': dict(property='C09', needs='adding a slice of one array to a slice of a different array of which it would be the contiguous continuation', breaks='the sum takes the second operand\'s elements from the first operand\'s body',
  edits=[('include/array.h', "				if ((Body*)body == (Body*)addend.body	// From the same body\n				 && offset+num_elements == addend.offset)	// And this", "				if (body && addend.body && body->length() == addend.body->length()	// From the same body\n				 && offset+num_elements == addend.offset)	// And this")],
  demo='''
#include <array.h>
#include <stdio.h>
int main() { int x[] = {1,2,3,4}, y[] = {5,6,7,8}; Array<int> a(x, 4), b(y, 4); Array<int> c = a.head(2)+b.slice(2); printf("%d %d\\n", c[2], c[3]); return c[2] == 7 && c[3] == 8 ? 0 : 1; }
'''),
's10_last_mut': dict(property='C10', needs='last_mut() on an array whose body another array shares', breaks='the other array\'s element changes too',
  edits=[('include/array.h', "			{ assert(num_elements > 0); return elem_mut(num_elements-1); }\n", "			{ assert(num_elements > 0); return const_cast<Element&>(last_ref()); }\n")],
  demo='''
#include <array.h>
#include <stdio.h>
int main() { int x[] = {1,2,3}; Array<int> a(x, 3), b(a); b.last_mut() = 9; printf("%d %d\\n", a[2], b[2]); return a[2] == 3 && b[2] == 9 ? 0 : 1; }
'''),
's10_assign_release': dict(property='C10', needs='an assignment of an array to itself (or of a body to the reference that is its only user) when it is the only user of its body', breaks='the body is freed while it is still used',
  edits=[('include/refcount.h', "				T*      o = other;\n				if (o)\n					o->AddRef();\n				T*      old = ptr;\n				ptr = other;\n				if (old)\n					old->Release();\n				return *this;\n", "				T*      o = other;\n				T*      old = ptr;\n				if (old)\n					old->Release();\n				ptr = o;\n				if (o)\n					o->AddRef();\n				return *this;\n")],
  asan=True,
  demo='''
#include <array.h>
#include <stdio.h>
int main() { int x[] = {1,2,3}; Array<int> a(x, 3); Array<int>& r = a; a = r; printf("%d\\n", a[2]); return a.length() == 3 && a[2] == 3 ? 0 : 1; }
'''),
}

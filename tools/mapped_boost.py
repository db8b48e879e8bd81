#!/usr/bin/env python3
"""Writes harness/mapped_boost: the installed Boost 1.83 unordered_flat_map with the two raw pointers of its table made
relative, as newer Boost versions (which the project asks for) have them, so that it can live in a mapped file."""
import re
SRC = "/usr/include/boost/unordered/detail/foa/core.hpp"
DST = "/verif/harness/mapped_boost/boost/unordered/detail/foa/core.hpp"
t = open(SRC).read()


def sub(old, new, count=1):
    global t
    assert t.count(old) == count, (old, t.count(old))
    t = t.replace(old, new)


sub("""template<typename Value,typename Group,typename SizePolicy>
struct table_arrays
""", """/* VERIF: relative pointers as in Boost >= 1.84, usable inside remapped files */
template<typename T>
struct relative_elements
{
  relative_elements(T* p=nullptr):p_{p}{}
  relative_elements& operator=(T* p){p_=p;return *this;}
  operator T*()const noexcept{return p_.get();}
  boost::interprocess::offset_ptr<T> p_;
};

template<typename Group,std::size_t Size>
struct relative_groups
{
  relative_groups(Group* p=nullptr){*this=p;}
  relative_groups& operator=(Group* p)
  {
    p_=(p==dummy_groups<Group,Size>())?nullptr:p;
    return *this;
  }
  operator Group*()const noexcept
  {
    auto p=p_.get();
    return p?p:dummy_groups<Group,Size>();
  }
  boost::interprocess::offset_ptr<Group> p_;
};

template<typename Value,typename Group,typename SizePolicy>
struct table_arrays
""")
sub("  group_type  *groups;\n  value_type  *elements;\n",
    "  relative_groups<group_type,size_policy::min_size()> groups;\n  relative_elements<value_type> elements;\n")
sub("auto p=arrays.elements;", "element_type* p=arrays.elements;")
sub("auto p=arrays_.elements;", "element_type* p=arrays_.elements;")
sub("for(auto pg=arrays.groups,last=pg+arrays.groups_size_mask+1;",
    "for(group_type *pg=arrays.groups,*last=pg+arrays.groups_size_mask+1;")
sub("for(auto pg=arrays_.groups,last=pg+arrays_.groups_size_mask+1;",
    "for(group_type *pg=arrays_.groups,*last=pg+arrays_.groups_size_mask+1;")
sub("reinterpret_cast<unsigned char*>(arrays.elements),", "reinterpret_cast<unsigned char*>((element_type*)arrays.elements),")
sub("reinterpret_cast<unsigned char*>(x.arrays.elements),", "reinterpret_cast<unsigned char*>((element_type*)x.arrays.elements),")
i = t.index("#include <boost/")
t = t[:i] + "#include <boost/interprocess/offset_ptr.hpp>\n" + t[i:]
open(DST, "w").write(t)

// Red-black tree support of libstdc++ (std::map, std::set).
#include <map>
namespace std
{
_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw( )
{
    if ( x->_M_right )
    {
        x = x->_M_right;
        while ( x->_M_left ) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while ( x == y->_M_right ) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x ) throw( )
{
    return _Rb_tree_increment( const_cast< _Rb_tree_node_base* >( x ) );
}
_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw( )
{
    if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right;
    if ( x->_M_left )
    {
        x = x->_M_left;
        while ( x->_M_right ) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while ( x == y->_M_left ) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x ) throw( )
{
    return _Rb_tree_decrement( const_cast< _Rb_tree_node_base* >( x ) );
}
static void rotate( _Rb_tree_node_base* x, bool left, _Rb_tree_node_base*& root )
{
    _Rb_tree_node_base* y = left ? x->_M_right : x->_M_left;
    _Rb_tree_node_base*& inner = left ? y->_M_left : y->_M_right;
    ( left ? x->_M_right : x->_M_left ) = inner;
    if ( inner ) inner->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if ( x == root ) root = y;
    else if ( x == x->_M_parent->_M_left ) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    inner = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                    _Rb_tree_node_base& header ) throw( )
{
    _Rb_tree_node_base*& root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = x->_M_right = 0;
    x->_M_color = _S_red;
    if ( left )
    {
        p->_M_left = x;
        if ( p == &header ) { header._M_parent = x; header._M_right = x; }
        else if ( p == header._M_left ) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if ( p == header._M_right ) header._M_right = x;
    }
    while ( x != root && x->_M_parent->_M_color == _S_red )
    {
        _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
        const bool l = x->_M_parent == g->_M_left;
        _Rb_tree_node_base* const u = l ? g->_M_right : g->_M_left;
        if ( u && u->_M_color == _S_red )
        {
            x->_M_parent->_M_color = _S_black;
            u->_M_color = _S_black;
            g->_M_color = _S_red;
            x = g;
        }
        else
        {
            if ( x == ( l ? x->_M_parent->_M_right : x->_M_parent->_M_left ) )
            {
                x = x->_M_parent;
                rotate( x, l, root );
            }
            x->_M_parent->_M_color = _S_black;
            g->_M_color = _S_red;
            rotate( g, !l, root );
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& header ) throw( )
{
    _Rb_tree_node_base*& root = header._M_parent;
    _Rb_tree_node_base*& leftmost = header._M_left;
    _Rb_tree_node_base*& rightmost = header._M_right;
    _Rb_tree_node_base* y = z;
    _Rb_tree_node_base* x = 0;
    _Rb_tree_node_base* xp = 0;
    if ( !y->_M_left ) x = y->_M_right;
    else if ( !y->_M_right ) x = y->_M_left;
    else
    {
        y = y->_M_right;
        while ( y->_M_left ) y = y->_M_left;
        x = y->_M_right;
    }
    if ( y != z )
    {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if ( y != z->_M_right )
        {
            xp = y->_M_parent;
            if ( x ) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        else xp = y;
        if ( root == z ) root = y;
        else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color c = y->_M_color;
        y->_M_color = z->_M_color;
        z->_M_color = c;
        y = z;
    }
    else
    {
        xp = y->_M_parent;
        if ( x ) x->_M_parent = y->_M_parent;
        if ( root == z ) root = x;
        else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if ( leftmost == z )
        {
            if ( !z->_M_right ) leftmost = z->_M_parent;
            else { leftmost = x; while ( leftmost->_M_left ) leftmost = leftmost->_M_left; }
        }
        if ( rightmost == z )
        {
            if ( !z->_M_left ) rightmost = z->_M_parent;
            else { rightmost = x; while ( rightmost->_M_right ) rightmost = rightmost->_M_right; }
        }
    }
    if ( y->_M_color != _S_red )
    {
        while ( x != root && ( !x || x->_M_color == _S_black ) )
        {
            const bool l = x == xp->_M_left;
            _Rb_tree_node_base* w = l ? xp->_M_right : xp->_M_left;
            if ( w->_M_color == _S_red )
            {
                w->_M_color = _S_black;
                xp->_M_color = _S_red;
                rotate( xp, l, root );
                w = l ? xp->_M_right : xp->_M_left;
            }
            _Rb_tree_node_base* far = l ? w->_M_right : w->_M_left;
            _Rb_tree_node_base* near = l ? w->_M_left : w->_M_right;
            if ( ( !near || near->_M_color == _S_black ) && ( !far || far->_M_color == _S_black ) )
            {
                w->_M_color = _S_red;
                x = xp;
                xp = xp->_M_parent;
                continue;
            }
            if ( !far || far->_M_color == _S_black )
            {
                near->_M_color = _S_black;
                w->_M_color = _S_red;
                rotate( w, !l, root );
                w = l ? xp->_M_right : xp->_M_left;
                far = l ? w->_M_right : w->_M_left;
            }
            w->_M_color = xp->_M_color;
            xp->_M_color = _S_black;
            if ( far ) far->_M_color = _S_black;
            rotate( xp, l, root );
            break;
        }
        if ( x ) x->_M_color = _S_black;
    }
    return y;
}
}

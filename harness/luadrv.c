/* A Lua interpreter with the dax package that runs the chunks it is sent, one
 * a line, and prints what they return:
 *   1 value value ...      or      0 string-of-the-error
 * n nil, t, f, i<int>, d<8 bytes of the double>, s<bytes>, h<handle>, {key=value;...} */
#include <lua.h>
#include <lualib.h>
#include <lauxlib.h>
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <opendax.h>

int luaopen_dax(lua_State *L);

static FILE *ans;

static void
hex(const void *p, size_t n)
{
    size_t i;
    for(i = 0; i < n; i++) fprintf(ans, "%02x", ((const unsigned char *)p)[i]);
}

/* a field of a handle as a script sees it */
static long
field(lua_State *L, int at, const char *name)
{
    long x;
    lua_getfield(L, at, name);
    x = lua_isinteger(L, -1) ? (long)lua_tointeger(L, -1) : -77777;
    lua_pop(L, 1);
    return x;
}

static void
put(lua_State *L, int at, int depth)
{
    double d;
    size_t n;
    const char *s;
    tag_handle *h;

    at = lua_absindex(L, at);
    luaL_checkstack(L, 8, "values");
    switch(lua_type(L, at)) {
        case LUA_TNIL: fprintf(ans, "n"); break;
        case LUA_TBOOLEAN: fprintf(ans, lua_toboolean(L, at) ? "t" : "f"); break;
        case LUA_TNUMBER:
            if(lua_isinteger(L, at)) fprintf(ans, "i%lld", (long long)lua_tointeger(L, at));
            else { d = lua_tonumber(L, at); fprintf(ans, "d"); hex(&d, 8); }
            break;
        case LUA_TSTRING: s = lua_tolstring(L, at, &n); fprintf(ans, "s"); hex(s, n); break;
        case LUA_TUSERDATA:
            h = luaL_testudata(L, at, "OpenDAX.handle");
            if(h == NULL) { fprintf(ans, "?userdata"); break; }
            if(field(L, at, "index") != h->index || field(L, at, "byte") != h->byte || field(L, at, "bit") != h->bit ||
               field(L, at, "count") != h->count || field(L, at, "size") != h->size || (tag_type)field(L, at, "type") != h->type) fprintf(ans, "?fields");
            else fprintf(ans, "h%d:%d:%d:%d:%d:%d", (int)h->index, (int)h->byte, (int)h->bit, (int)h->count, (int)h->size, (int)h->type);
            break;
        case LUA_TTABLE:
            fprintf(ans, "{");
            lua_pushnil(L);
            while(depth < 30 && lua_next(L, at)) {
                put(L, -2, depth + 1);
                fprintf(ans, "=");
                put(L, -1, depth + 1);
                fprintf(ans, ";");
                lua_pop(L, 1);
            }
            fprintf(ans, "}");
            break;
        default: fprintf(ans, "?%s", lua_typename(L, lua_type(L, at)));
    }
}

int
main(int argc, char **argv)
{
    lua_State *L = luaL_newstate();
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    int i, top;

    /* the library and scripts may say things on stdout */
    ans = fdopen(dup(1), "w");
    dup2(2, 1);
    luaL_openlibs(L);
    lua_newtable(L);
    for(i = 1; i < argc; i++) { lua_pushstring(L, argv[i]); lua_rawseti(L, -2, i); }
    lua_setglobal(L, "arg");
    luaL_requiref(L, "dax", luaopen_dax, 1);
    lua_settop(L, 0);
    while((n = getline(&line, &cap, stdin)) > 0) {
        if(luaL_loadbuffer(L, line, n, "chunk") || lua_pcall(L, 0, LUA_MULTRET, 0)) {
            const char *s = lua_type(L, -1) == LUA_TSTRING ? lua_tostring(L, -1) : luaL_typename(L, -1);
            fprintf(ans, "0 s");
            hex(s, strlen(s));
        } else {
            fprintf(ans, "1");
            top = lua_gettop(L);
            for(i = 1; i <= top; i++) { fprintf(ans, " "); put(L, i, 0); }
        }
        fprintf(ans, "\n");
        fflush(ans);
        lua_settop(L, 0);
    }
    return 0;
}

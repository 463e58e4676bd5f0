"""The Fortran program of the drivers: every constructor and every overload of one backend's Fortran module, made callable from C."""
KIND = ["real(C_FLOAT)", "complex(C_FLOAT_COMPLEX)", "real(C_DOUBLE)", "complex(C_DOUBLE_COMPLEX)"]
SPEC = ["complex(C_FLOAT_COMPLEX)", "complex(C_FLOAT_COMPLEX)", "complex(C_DOUBLE_COMPLEX)", "complex(C_DOUBLE_COMPLEX)"]
def module(be):
    o = ["module vfort_%s" % be, "use, intrinsic :: iso_c_binding", "use heffte_%s" % be, "implicit none"]
    for c in ("c", "r"): o += ["type hold_%s" % c, " type(heffte_fft3d_%s%s) :: f" % ("r2c_" if c == "r" else "", be), "end type"]
    o += ["contains"]
    o += ["integer function sc_of(s)", "integer(C_INT), value :: s", "sc_of = scale_%s_none" % be, "if (s == 1) sc_of = scale_%s_full" % be, "if (s == 2) sc_of = scale_%s_symmetric" % be, "end function"]
    o += ["integer(C_INT) function err() bind(C, name='vfort_%s_err')" % be, "err = ierr", "ierr = 0", "end function"]
    for c in ("c", "r"):
        cls = "heffte_fft3d_%s%s" % ("r2c_" if c == "r" else "", be); p = "vfort_%s_%s" % (be, c)
        def head(kind, name, args, decl, res=None):
            o.append("%s %s_%s(%s) bind(C, name='%s_%s')" % (kind, c, name, ", ".join(args), p, name)); o.extend(decl)
        unpack = ["type(c_ptr), value :: h", "type(hold_%s), pointer :: p" % c]; get = ["call c_f_pointer(h, p)"]
        # variables
        o.append("type(c_ptr) function %s_var() bind(C, name='%s_var')" % (c, p)); o += ["type(hold_%s), pointer :: p" % c, "allocate(p)", "%s_var = c_loc(p)" % c, "end function"]
        head("subroutine", "drop", ["h"], unpack); o += get + ["deallocate(p)", "end subroutine"]
        # how: 0 orders and options, 1 orders, 2 corners only
        head("subroutine", "new", ["h", "how", "a", "b", "d", "comm", "reorder", "alg", "pencils"], unpack + ["integer(C_INT), value :: how, d, comm, reorder, alg, pencils", "integer(C_INT), dimension(9) :: a, b", "integer :: fcomm"])
        o += get + ["fcomm = comm"]; six = lambda v: ",".join("%s(%d)" % (v, i) for i in range(1, 7)); nine = lambda v: six(v) + "," + ",".join("%s(%d)" % (v, i) for i in range(7, 10)); dd = " d," if c == "r" else ""
        o += ["if (how == 0) then", " p%%f = %s(%s, %s,%s fcomm, reorder /= 0, alg, pencils /= 0)" % (cls, nine("a"), nine("b"), dd), "else if (how == 1) then", " p%%f = %s(%s, %s,%s fcomm)" % (cls, nine("a"), nine("b"), dd), "else", " p%%f = %s(%s, %s,%s fcomm)" % (cls, six("a"), six("b"), dd), "end if", "end subroutine"]
        head("subroutine", "assign", ["h", "g"], unpack + ["type(c_ptr), value :: g", "type(hold_%s), pointer :: q" % c]); o += get + ["call c_f_pointer(g, q)", "p%f = q%f", "end subroutine"]
        head("subroutine", "release", ["h"], unpack); o += get + ["call p%f%release()", "end subroutine"]
        for n, t in (("size_inbox", "integer(C_LONG_LONG)"), ("size_outbox", "integer(C_LONG_LONG)"), ("size_workspace", "integer(C_SIZE_T)"), ("size_comm_buffers", "integer(C_SIZE_T)")):
            head(t + " function", n, ["h"], unpack); o += get + ["%s_%s = p%%f%%%s()" % (c, n, n), "end function"]
        head("real(C_DOUBLE) function", "scale", ["h", "s"], unpack + ["integer(C_INT), value :: s"]); o += get + ["%s_scale = p%%f%%get_scale_factor(sc_of(s))" % c, "end function"]
        for t in ((0, 2) if c == "r" else (0, 1, 2, 3)):
            for dirn in ("forward", "backward"):
                ti, to = (KIND[t], SPEC[t]) if dirn == "forward" else (SPEC[t], KIND[t])
                head("subroutine", "%s%d" % (dirn, t), ["h", "form", "batch", "x", "nx", "y", "ny", "w", "nw", "s"], unpack + ["integer(C_INT), value :: form, batch, s", "integer(C_LONG), value :: nx, ny, nw", "%s, dimension(nx) :: x" % ti, "%s, dimension(ny) :: y" % to, "%s, dimension(nw) :: w" % SPEC[t]])
                o += get + ["select case(form)"]
                for f in range(8):
                    args = (["batch"] if f & 1 else []) + ["x", "y"] + (["w"] if f & 2 else []) + (["sc_of(s)"] if f & 4 else [])
                    o += ["case(%d)" % f, " call p%%f%%%s(%s)" % (dirn, ", ".join(args))]
                o += ["end select", "end subroutine"]
    return "\n".join(o + ["end module", ""])
if __name__ == "__main__":
    import sys; print(module(sys.argv[1]))

"""Root data, inner classes and real forms used by the checks."""
# (name, axis expression of a RootDatum, Lie type as list of [letter,rank], lattice: "sc", "ad" or generators)


def lt(s):
    """"A2.T1" -> [["A",2],["T",1]]"""
    return [[x[0], int(x[1:])] for x in s.split(".")]


def sc(t, pref="false"):
    return ("sc " + t, 'simply_connected(Lie_type("%s"),%s)' % (t, pref), lt(t))


def ad(t, pref="false"):
    return ("ad " + t, 'adjoint(Lie_type("%s"),%s)' % (t, pref), lt(t))


def quot(t, gens, pref="false"):
    return ("%s mod %s" % (t, gens), 'root_datum(Lie_type("%s"),quotient_basis(Lie_type("%s"),[%s]),%s)'
            % (t, t, gens, pref), lt(t))


DATA_SMALL = [sc("A1"), ad("A1"), sc("T1"), sc("A1.A1"), quot("A1.A1", "(ratvec:[1/2,1/2])"), sc("A1.T1"), quot("A1.T1", "(ratvec:[1/2,1/2])"),
              sc("A2"), ad("A2"), sc("B2"), ad("B2"), sc("C2", "true"), sc("G2"), sc("G2", "true"), quot("A2.T1", "(ratvec:[1/3,1/3])"),
              sc("A3"), ad("A3"), quot("A3", "(ratvec:[1/2])"), sc("B3"), ad("B3"), sc("C3"), ad("C3"), sc("A2.A1"), sc("B2.T1"), sc("T2"),
              sc("C3", "true"), ad("B3", "true")]
DATA_MED = [sc("A4"), sc("D4"), ad("D4"), quot("D4", "(ratvec:[1/2,0])"), quot("D4", "(ratvec:[1/2,1/2])"), sc("B4"), sc("C4"), ad("C4"), sc("F4"), sc("F4", "true"),
            sc("A2.G2"), quot("A3.A1", "(ratvec:[1/2,1/2])"), quot("A1.A1.A1", "(ratvec:[1/2,1/2,0]),(ratvec:[0,1/2,1/2])"), sc("A2.A2.T1")]
DATA_BIG = [sc("A5"), sc("D5"), ad("D5"), sc("B5"), sc("C5"), sc("D6"), quot("D6", "(ratvec:[1/2,0])"), sc("E6"), ad("E6"), sc("A6"), ad("F4", "true")]
DATA_HUGE = [sc("E7"), ad("E7"), sc("E8"), sc("D8"), sc("B7"), sc("C7")]

# inner classes: (name, Lie type, lattice basis expression (columns in fundamental weight coordinates), letters)


def _sc(t):
    return 'let r=rank(Lie_type("%s")) in mat:for i:r do null(r)+for j:r do if i=j then 1 else 0 fi od od' % t


def basis_expr(t, lat):
    if lat == "sc":
        return 'id_mat(rank(Lie_type("%s")))' % t
    if lat == "ad":
        return 'ADB(Lie_type("%s"))' % t
    return 'quotient_basis(Lie_type("%s"),[%s])' % (t, lat)


# axis helper: basis of the root lattice plus the torus lattice
IC_DEFS = """
set ADB(LieType lt)=mat: let C=Cartan_matrix(lt),r=rank(lt) in begin let ss=#for f in simple_factors(lt) do 0 od, M=id_mat(r) in let (s,)=shape(C) in begin for i:s do for j:s do M[j,i]:=C[i,j] od od; M end end
"""


def ic(t, lat, letters):
    """name, expression of (rd, delta) -> InnerClass"""
    b = basis_expr(t, lat)
    return {"name": "%s %s %s" % (t, lat, letters), "lt": lt(t), "lat": lat, "letters": letters,
            "expr": 'let lt=Lie_type("%s"),b=%s in inner_class(root_datum(lt,b,false),involution(lt,b,"%s"))' % (t, b, letters)}


IC_SMALL = [ic("A1", "sc", "c"), ic("A1", "ad", "c"), ic("T1", "sc", "c"), ic("T1", "sc", "s"), ic("A1.T1", "sc", "cc"), ic("A1.T1", "sc", "cs"),
            ic("A1.T1", "(ratvec:[1/2,1/2])", "cc"), ic("A1.T1", "(ratvec:[1/2,1/2])", "cs"), ic("A1.A1", "sc", "C"), ic("A1.A1", "(ratvec:[1/2,1/2])", "C"),
            ic("A1.A1", "sc", "cc"), ic("A1.A1", "(ratvec:[1/2,1/2])", "cc"), ic("A2", "sc", "c"), ic("A2", "sc", "s"), ic("A2", "ad", "s"), ic("B2", "sc", "c"), ic("B2", "ad", "c"),
            ic("C2", "sc", "c"), ic("G2", "sc", "c"), ic("A3", "sc", "c"), ic("A3", "sc", "s"), ic("A3", "ad", "c"), ic("A3", "ad", "s"),
            ic("A3", "(ratvec:[1/2])", "s"), ic("A3", "(ratvec:[1/2])", "c"), ic("B3", "sc", "c"), ic("B3", "ad", "c"), ic("C3", "sc", "c"), ic("C3", "ad", "c"),
            ic("A2.T1", "(ratvec:[1/3,1/3])", "cc"), ic("A2.T1", "(ratvec:[1/3,1/3])", "ss"), ic("T2", "sc", "C"), ic("A1.A1.T1", "(ratvec:[1/2,1/2,1/2])", "Cs")]
IC_MED = [ic("A2.A2", "sc", "C"), ic("A4", "sc", "s"), ic("A4", "sc", "c"), ic("D4", "sc", "c"), ic("D4", "ad", "c"), ic("D4", "sc", "u"), ic("D4", "ad", "u"),
          ic("D4", "(ratvec:[1/2,1/2])", "u"), ic("B4", "ad", "c"), ic("C4", "sc", "c"), ic("A2.G2", "sc", "sc"), ic("A3.A1", "(ratvec:[1/2,1/2])", "sc"),
          ic("B2.B2", "sc", "C"), ic("F4", "sc", "c"), ic("G2.G2", "sc", "C"), ic("A1.A1.A1", "(ratvec:[1/2,1/2,0]),(ratvec:[0,1/2,1/2])", "Cc"), ic("A5", "sc", "c")]
IC_BIG = [ic("A5", "sc", "s"), ic("D5", "sc", "u"), ic("D5", "ad", "c"), ic("C5", "ad", "c"), ic("B5", "sc", "c"), ic("A3.A3", "sc", "C"), ic("D6", "(ratvec:[1/2,0])", "c"), ic("E6", "sc", "s"), ic("E6", "ad", "c")]

"""Is what was written complete and consistent in itself?

ASTER: the command file is executed (lib.comm); then every call is checked against a catalogue of the commands (keywords,
types of concepts, types of values, exclusive and required keywords: Code_Aster U4 manuals) and every name of a group, node or
cell against the mesh.  SYSTUS and NASTRAN: the readers' own closure checks.
"""
import math, numbers, re
from lib import comm as C, aster
from lib.comm import seq

# kinds of values: S string, R real, I integer, L list, letters after '@': concepts
CH = ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F")
MODEL, MATER, CARA = ("AFFE_MODELE",), ("AFFE_MATERIAU",), ("AFFE_CARA_ELEM",)
MESH = ("LIRE_MAILLAGE", "MODI_MAILLAGE")
FUNC = ("DEFI_FONCTION", "DEFI_CONSTANTE", "FORMULE", "CALC_FONCTION", "CALC_FONC_INTERP")
MATR = ("ASSE_MATRICE", "COMB_MATR_ASSE")
RESU = ("MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "EXTR_MODE", "NORM_MODE", "DYNA_VIBRA", "REST_GENE_PHYS", "CREA_RESU", "CALC_CHAMP")
MODES = ("CALC_MODES", "EXTR_MODE", "NORM_MODE", "CALC_CHAMP")
TABLE = ("POST_RELEVE_T", "CALC_TABLE", "CREA_TABLE", "RECU_TABLE", "POST_ELEM", "MACR_LIGN_COUPE")
VECT = ("ASSE_VECTEUR",)
LISTR, LISTI = ("DEFI_LIST_REEL", "DEFI_LIST_FREQ"), ("DEFI_LIST_INST",)
GENE = ("CO",)
S, R, I = "S", "R", "I"
TOPO = {"GROUP_MA": S, "MAILLE": S, "GROUP_NO": S, "NOEUD": S, "TOUT": S}
CELL = {"GROUP_MA": S, "MAILLE": S, "TOUT": S}
RF = (R,) + FUNC
COMP6 = dict(FX=R, FY=R, FZ=R, MX=R, MY=R, MZ=R)
SOLV = dict(METHODE=S, RENUM=S, RESI_RELA=R, NPREC=I)
TESTNUM = dict(VALE_CALC=R, VALE_REFE=R, VALE_CALC_C="C", REFERENCE=S, PRECISION=R, CRITERE=S, TOLE_MACHINE=R, VALE_ABS=S)

CAT = {
 "DEBUT": dict(PAR_LOT=S, IGNORE_ALARM=S, LANG=S, CODE={}),
 "FIN": dict(RETASSAGE=S),
 "DEFI_FICHIER": dict(ACTION=S, FICHIER=S, UNITE=(I, "DEFI_FICHIER")),
 "LIRE_MAILLAGE": dict(FORMAT=S, UNITE=I, NOM_MED=S, VERI_MAIL=dict(VERIF=S)),
 "MODI_MAILLAGE": dict(reuse=MESH, MAILLAGE=MESH, ORIE_PEAU_2D=dict(GROUP_MA=S), ORIE_PEAU_3D=dict(GROUP_MA=S), ORIE_PEAU=dict(GROUP_MA_PEAU=S),
                       ORIE_NORM_COQUE=dict(GROUP_MA=S, VECT_NORM=R, NOEUD=S, GROUP_NO=S)),
 "DEFI_GROUP": dict(reuse=MESH, MAILLAGE=MESH, CREA_GROUP_MA=dict(NOM=S, TOUT=S, GROUP_MA=S), CREA_GROUP_NO=dict(NOM=S, GROUP_MA=S)),
 "AFFE_MODELE": dict(MAILLAGE=MESH, AFFE=dict(PHENOMENE=S, MODELISATION=S, **CELL)),
 "DEFI_MATERIAU": dict(ELAS=dict(E=R, NU=R, RHO=R, ALPHA=R, AMOR_HYST=R, AMOR_ALPHA=R, AMOR_BETA=R), ELAS_FO=dict(E=FUNC, NU=FUNC, RHO=R, ALPHA=FUNC, TEMP_DEF_ALPHA=R, AMOR_HYST=FUNC, AMOR_ALPHA=FUNC, AMOR_BETA=FUNC),
                       ELAS_ORTH={**{k: R for k in ("E_L", "E_T", "E_N", "NU_LT", "NU_LN", "NU_TN", "G_LT", "G_LN", "G_TN", "RHO", "ALPHA_L", "ALPHA_T", "ALPHA_N", "XT", "XC", "YT", "YC", "S_LT", "AMOR_HYST")}},
                       ECRO_LINE=dict(D_SIGM_EPSI=R, SY=R), TRACTION=dict(SIGM=FUNC),
                       ELAS_HYPER=dict(C10=R, C01=R, C20=R, K=R, RHO=R, NU=R), RCCM={}),
 "DEFI_COMPOSITE": dict(COUCHE=dict(EPAIS=R, MATER=("DEFI_MATERIAU",), ORIENTATION=R)),
 "AFFE_MATERIAU": dict(MAILLAGE=MESH, MODELE=MODEL, AFFE=dict(MATER=("DEFI_MATERIAU", "DEFI_COMPOSITE"), **CELL),
                       AFFE_VARC=dict(NOM_VARC=S, VALE_REF=R, CHAM_GD=("CREA_CHAMP",), **CELL)),
 "AFFE_CARA_ELEM": dict(MODELE=MODEL, VERIF=S,
    POUTRE=dict(SECTION=S, CARA=S, VALE=R, VARI_SECT=S, **CELL), BARRE=dict(SECTION=S, CARA=S, VALE=R, **CELL),
    COQUE=dict(EPAIS=R, EXCENTREMENT=R, COQUE_NCOU=I, INER_ROTA=S, VECTEUR=R, ANGL_REP=R, MODI_METRIQUE=S, **CELL),
    DISCRET=dict(CARA=S, VALE=R, REPERE=S, SYME=S, AMOR_HYST=R, **TOPO),
    MASSIF=dict(ANGL_REP=R, ANGL_AXE=R, ORIG_AXE=R, **CELL), ORIENTATION=dict(CARA=S, VALE=R, **TOPO)),
 "AFFE_CHAR_MECA": dict(MODELE=MODEL, VERI_NORM=S, INFO=I,
    DDL_IMPO=dict(DX=R, DY=R, DZ=R, DRX=R, DRY=R, DRZ=R, LIAISON=S, BLOCAGE=S, **TOPO), FACE_IMPO=dict(DX=R, DY=R, DZ=R, DRX=R, DRY=R, DRZ=R, DNOR=R, **CELL),
    FORCE_NODALE=dict(ANGL_NAUT=R, **COMP6, **{k: S for k in ("NOEUD", "GROUP_NO")}), FORCE_COQUE=dict(PRES=R, PLAN=S, F1=R, F2=R, F3=R, **COMP6, **CELL),
    FORCE_FACE=dict(FX=R, FY=R, FZ=R, **CELL), FORCE_ARETE=dict(**COMP6, **CELL), FORCE_POUTRE=dict(N=R, VY=R, VZ=R, TYPE_CHARGE=S, **COMP6, **CELL),
    PRES_REP=dict(PRES=R, CISA_2D=R, **CELL), PESANTEUR=dict(GRAVITE=R, DIRECTION=R, **CELL), ROTATION=dict(VITESSE=R, AXE=R, CENTRE=R, **CELL),
    LIAISON_DDL=dict(NOEUD=S, GROUP_NO=S, DDL=S, COEF_MULT=R, COEF_IMPO=R), LIAISON_SOLIDE=dict(DIST_MIN=R, NUME_LAGR=S, **TOPO),
    LIAISON_OBLIQUE=dict(ANGL_NAUT=R, DX=R, DY=R, DZ=R, DRX=R, DRY=R, DRZ=R, **TOPO),
    LIAISON_RBE3=dict(GROUP_NO_MAIT=S, NOEUD_MAIT=S, DDL_MAIT=S, GROUP_NO_ESCL=S, NOEUD_ESCL=S, DDL_ESCL=S, COEF_ESCL=R, NUME_LAGR=S),
    LIAISON_UNIF=dict(DDL=S, **TOPO)),
 "AFFE_CHAR_MECA_F": dict(MODELE=MODEL, VERI_NORM=S, FORCE_POUTRE=dict(FX=FUNC, FY=FUNC, FZ=FUNC, MX=FUNC, MY=FUNC, MZ=FUNC, **CELL)),
 "DEFI_CONTACT": dict(MODELE=MODEL, FORMULATION=S, FROTTEMENT=S,
    ZONE=dict(COEF_IMPO=FUNC, COEF_MULT=FUNC, NOM_CMP=S, COULOMB=R, GROUP_MA_ESCL=S, GROUP_MA_MAIT=S, NOEUD=S, GROUP_NO=S)),
 "DEFI_CONSTANTE": dict(VALE=R, NOM_RESU=S),
 "DEFI_FONCTION": dict(NOM_PARA=S, NOM_RESU=S, VALE=R, ABSCISSE=R, ORDONNEE=R, PROL_DROITE=S, PROL_GAUCHE=S, INTERPOL=S),
 "FORMULE": dict(NOM_PARA=S, VALE=S, VALE_C=S),
 "CALC_FONCTION": dict(COMB=dict(COEF=R, FONCTION=FUNC)),
 "CALC_FONC_INTERP": dict(FONCTION=FUNC, VALE_PARA="L", NOM_PARA=S, INTERPOL=S, PROL_DROITE=S, PROL_GAUCHE=S),
 "DEFI_LIST_REEL": dict(VALE=R, DEBUT=R, INTERVALLE=dict(JUSQU_A=R, NOMBRE=I, PAS=R)),
 "DEFI_LIST_FREQ": dict(DEBUT=R, VALE=R, INTERVALLE=dict(JUSQU_A=R, NOMBRE=I, PAS=R), RAFFINEMENT=dict(LIST_RAFFINE="L", CRITERE=S, DISPERSION=R, NB_POINTS=I, PAS_MINI=R)),
 "DEFI_LIST_INST": dict(METHODE=S, DEFI_LIST=dict(LIST_INST=LISTR, NB_PAS_MAXI=I)),
 "MECA_STATIQUE": dict(MODELE=MODEL, CHAM_MATER=MATER, CARA_ELEM=CARA, EXCIT=dict(CHARGE=CH, FONC_MULT=FUNC), SOLVEUR=SOLV, OPTION=S),
 "STAT_NON_LINE": dict(MODELE=MODEL, CHAM_MATER=MATER, CARA_ELEM=CARA, EXCIT=dict(CHARGE=CH, FONC_MULT=FUNC), CONTACT=("DEFI_CONTACT",),
    COMPORTEMENT=dict(RELATION=S, DEFORMATION=S, **CELL), INCREMENT=dict(LIST_INST=LISTI + LISTR), NEWTON=dict(REAC_ITER=I, PREDICTION=S, MATRICE=S),
    CONVERGENCE=dict(RESI_GLOB_RELA=R, ITER_GLOB_MAXI=I, ARRET=S), ETAT_INIT=dict(EVOL_NOLI=("STAT_NON_LINE", "CALC_CHAMP")), ARCHIVAGE=dict(LIST_INST=LISTR), SOLVEUR=SOLV),
 "NUME_DDL": dict(MODELE=MODEL, CHARGE=CH),
 "CALC_MATR_ELEM": dict(OPTION=S, MODELE=MODEL, CHAM_MATER=MATER, CARA_ELEM=CARA, CHARGE=CH, RIGI_MECA=("CALC_MATR_ELEM",), MASS_MECA=("CALC_MATR_ELEM",), SIEF_ELGA=("CREA_CHAMP",)),
 "ASSE_MATRICE": dict(MATR_ELEM=("CALC_MATR_ELEM",), NUME_DDL=("NUME_DDL",)),
 "COMB_MATR_ASSE": dict(COMB_R=dict(MATR_ASSE=MATR, COEF_R=R)),
 "CALC_VECT_ELEM": dict(OPTION=S, CHAM_MATER=MATER, CARA_ELEM=CARA, CHARGE=CH, MODELE=MODEL),
 "ASSE_VECTEUR": dict(VECT_ELEM=("CALC_VECT_ELEM",), NUME_DDL=("NUME_DDL",)),
 "CALC_MODES": dict(MATR_RIGI=MATR, MATR_MASS=MATR, MATR_AMOR=MATR, MATR_RIGI_GEOM=MATR, TYPE_RESU=S, OPTION=S, CALC_FREQ=dict(FREQ=R, NMAX_FREQ=I), CALC_CHAR_CRIT=dict(CHAR_CRIT=R, NMAX_CHAR_CRIT=I),
    NORM_MODE=dict(NORME=S), SOLVEUR=SOLV, SOLVEUR_MODAL=dict(METHODE=S, OPTION_INV=S), VERI_MODE=dict(STOP_ERREUR=S)),
 "EXTR_MODE": dict(FILTRE_MODE=dict(MODE=MODES, FREQ_MIN=R, FREQ_MAX=R)),
 "NORM_MODE": dict(reuse=MODES, MODE=MODES, NORME=S),
 "RECU_TABLE": dict(CO=RESU, NOM_PARA=S),
 "POST_ELEM": dict(RESULTAT=RESU, MASS_INER=dict(TOUT=S), TRAV_EXT={}),
 "MODE_STATIQUE": dict(MATR_RIGI=MATR, MATR_MASS=MATR, FORCE_NODALE=dict(NOEUD=S, AVEC_CMP=S)),
 "DEFI_BASE_MODALE": dict(RITZ=dict(MODE_MECA=MODES, MODE_INTF=("MODE_STATIQUE",)), NUME_REF=("NUME_DDL",), MATRICE=MATR, ORTHO=S),
 "PROJ_BASE": dict(BASE=MODES + ("DEFI_BASE_MODALE",), NUME_DDL_GENE="CO", MATR_ASSE_GENE=dict(MATRICE="CO", MATR_ASSE=MATR), VECT_ASSE_GENE=dict(VECTEUR="CO", VECT_ASSE=VECT, TYPE_VECT=S)),
 "DYNA_VIBRA": dict(TYPE_CALCUL=S, BASE_CALCUL=S, MATR_MASS=MATR + GENE, MATR_RIGI=MATR + GENE, MATR_AMOR=MATR + GENE, AMOR_MODAL=dict(AMOR_REDUIT="L"), LIST_FREQ=LISTR, FREQ=R,
    EXCIT=dict(VECT_ASSE=VECT, VECT_ASSE_GENE=GENE, FONC_MULT=FUNC, PHAS_DEG=R)),
 "REST_GENE_PHYS": dict(RESU_GENE=("DYNA_VIBRA",), TOUT_ORDRE=S, LIST_FREQ=LISTR, NOM_CHAM=S),
 "CREA_CHAMP": dict(TYPE_CHAM=S, OPERATION=S, RESULTAT=RESU, NOM_CHAM=S, NUME_ORDRE=I, OPTION=S, MODELE=MODEL, MAILLAGE=MESH, ASSE=dict(TOUT=S, CHAM_GD=("CREA_CHAMP",), CUMUL=S, COEF_R=R),
    AFFE=dict(NOM_CMP=S, VALE=R, **TOPO)),
 "CREA_RESU": dict(OPERATION=S, TYPE_RESU=S, NOM_CHAM=S, AFFE=dict(CHAM_GD=("CREA_CHAMP",), MODELE=MODEL, CHAM_MATER=MATER, CARA_ELEM=CARA)),
 "CREA_TABLE": dict(RESU=dict(RESULTAT=RESU, NOM_CHAM=S, TOUT=S, TOUT_CMP=S, NOM_CMP=S, TOUT_ORDRE=S, **{k: S for k in ("GROUP_NO", "NOEUD", "GROUP_MA", "MAILLE")}), FONCTION=dict(FONCTION=FUNC)),
 "CALC_TABLE": dict(reuse=TABLE, TABLE=TABLE, ACTION=dict(OPERATION=S, NOM_PARA=S)),
 "CALC_CHAMP": dict(reuse=RESU, RESULTAT=RESU, MODELE=MODEL, CHAM_MATER=MATER, CARA_ELEM=CARA, CONTRAINTE=S, CRITERES=S, FORCE=S, DEFORMATION=S, ENERGIE=S, PRECISION=R, LIST_FREQ=LISTR, TOUT_ORDRE=S, TOUT=S, GROUP_MA=S),
 "POST_CHAMP": dict(RESULTAT=RESU, EXTR_COQUE=dict(NOM_CHAM=S, NUME_COUCHE=I, NIVE_COUCHE=S), GROUP_MA=S, MAILLE=S),
 "POST_RELEVE_T": dict(INFO=I, ACTION=dict(INTITULE=S, OPERATION=S, FORMAT_C=S, NOM_CHAM=S, RESULTAT=RESU, REPERE=S, TOUT_CMP=S, NOM_CMP=S, TOUT_ORDRE=S, VECT_Y=R, ORIGINE=R, NOEUD=S, GROUP_NO=S, LIST_FREQ=LISTR)),
 "MACR_LIGN_COUPE": dict(RESULTAT=RESU, NOM_CHAM=S, MODELE=MODEL, LIGN_COUPE=dict(TYPE=S, NB_POINTS=I, COOR_ORIG=R, COOR_EXTR=R, GROUP_MA=S, REPERE=S, OPERATION=S)),
 "IMPR_TABLE": dict(TABLE=TABLE, UNITE=(I, "DEFI_FICHIER"), FORMAT=S, SEPARATEUR=S, TITRE=S, NOM_PARA=S),
 "IMPR_RESU": dict(FORMAT=S, UNITE=I, RESU=dict(RESULTAT=RESU, MAILLAGE=MESH, NOM_CHAM=S, NOM_PARA=S, PARTIE=S, TOUT_CHAM=S, VALE_MAX=S, VALE_MIN=S, LIST_FREQ=LISTR, CHAM_GD=("CREA_CHAMP",), CARA_ELEM=CARA)),
 "TEST_RESU": dict(RESU=dict(RESULTAT=RESU, NOM_CHAM=S, NOM_CMP=S, NUME_ORDRE=I, NUME_MODE=I, INST=R, FREQ=R, PARA=S, NOEUD=S, GROUP_NO=S, GROUP_MA=S, MAILLE=S, **TESTNUM)),
 "DETRUIRE": dict(CONCEPT=dict(NOM="N"), INFO=I),
}
REQ = {
 "AFFE_MODELE": ("MAILLAGE",), "AFFE_CARA_ELEM": ("MODELE",), "AFFE_CHAR_MECA": ("MODELE",), "AFFE_CHAR_MECA_F": ("MODELE",), "AFFE_MATERIAU": ("AFFE",),
 "AFFE_MATERIAU.AFFE": ("MATER",), "AFFE_MODELE.AFFE": ("PHENOMENE", "MODELISATION"), "DEFI_CONTACT": ("MODELE", "ZONE"),
 "MECA_STATIQUE": ("MODELE", "CHAM_MATER"), "MECA_STATIQUE.EXCIT": ("CHARGE",), "STAT_NON_LINE": ("MODELE", "CHAM_MATER", "COMPORTEMENT", "INCREMENT"), "STAT_NON_LINE.EXCIT": ("CHARGE",),
 "STAT_NON_LINE.COMPORTEMENT": ("RELATION",), "NUME_DDL": ("MODELE",), "CALC_MATR_ELEM": ("OPTION",), "ASSE_MATRICE": ("MATR_ELEM", "NUME_DDL"), "ASSE_VECTEUR": ("VECT_ELEM", "NUME_DDL"),
 "CALC_VECT_ELEM": ("OPTION", "CHARGE"), "CALC_MODES": ("MATR_RIGI",), "PROJ_BASE": ("BASE",), "DYNA_VIBRA": ("TYPE_CALCUL", "BASE_CALCUL", "MATR_MASS", "MATR_RIGI", "EXCIT"), "REST_GENE_PHYS": ("RESU_GENE",),
 "DEFI_CONSTANTE": ("VALE",), "DEFI_FONCTION": ("NOM_PARA", "VALE"), "FORMULE": ("NOM_PARA", "VALE"), "DEFI_COMPOSITE.COUCHE": ("EPAIS", "MATER"), "AFFE_CARA_ELEM.POUTRE": ("SECTION", "CARA", "VALE"),
 "AFFE_CARA_ELEM.BARRE": ("SECTION", "CARA", "VALE"), "AFFE_CARA_ELEM.COQUE": ("EPAIS",), "AFFE_CARA_ELEM.DISCRET": ("CARA", "VALE"), "AFFE_CARA_ELEM.ORIENTATION": ("CARA", "VALE"),
 "AFFE_CHAR_MECA.PESANTEUR": ("GRAVITE", "DIRECTION"), "AFFE_CHAR_MECA.ROTATION": ("VITESSE", "AXE"), "AFFE_CHAR_MECA.LIAISON_DDL": ("DDL", "COEF_MULT", "COEF_IMPO"), "AFFE_CHAR_MECA.PRES_REP": ("PRES",),
 "DEFI_MATERIAU.ELAS": ("E", "NU"), "DEFI_MATERIAU.ECRO_LINE": ("D_SIGM_EPSI", "SY"), "TEST_RESU.RESU": ("RESULTAT",), "MODE_STATIQUE.FORCE_NODALE": ("AVEC_CMP",),
 "CREA_TABLE.FONCTION": ("FONCTION",), "CALC_FONC_INTERP": ("FONCTION",), "CALC_FONCTION.COMB": ("COEF", "FONCTION"), "DEFI_LIST_REEL.INTERVALLE": ("JUSQU_A",),
}
# keyword sets of which at least one must be there
ANY = {p: ("GROUP_MA", "MAILLE", "TOUT") for p in ("AFFE_MODELE.AFFE", "AFFE_MATERIAU.AFFE", "AFFE_CARA_ELEM.POUTRE", "AFFE_CARA_ELEM.BARRE", "AFFE_CARA_ELEM.COQUE", "AFFE_CARA_ELEM.DISCRET",
       "AFFE_CARA_ELEM.ORIENTATION", "AFFE_CARA_ELEM.MASSIF", "AFFE_CHAR_MECA.PRES_REP", "AFFE_CHAR_MECA.FORCE_COQUE", "AFFE_CHAR_MECA.FORCE_FACE", "AFFE_CHAR_MECA.FORCE_ARETE", "AFFE_CHAR_MECA.FORCE_POUTRE", "AFFE_CHAR_MECA_F.FORCE_POUTRE")}
ANY["AFFE_CHAR_MECA.FORCE_NODALE"] = ("NOEUD", "GROUP_NO")
ANY["AFFE_CHAR_MECA.LIAISON_DDL"] = ("NOEUD", "GROUP_NO")
ANY["AFFE_CHAR_MECA.LIAISON_SOLIDE"] = ("NOEUD", "GROUP_NO", "GROUP_MA", "MAILLE")
ANY["AFFE_CHAR_MECA.DDL_IMPO"] = ("NOEUD", "GROUP_NO", "GROUP_MA", "MAILLE", "TOUT")
ANY["DEFI_MATERIAU"] = ("ELAS", "ELAS_FO", "ELAS_ORTH", "ELAS_HYPER")
VALUES = {
 "AFFE_MODELE.AFFE.MODELISATION": {"3D", "3D_SI", "DKT", "DST", "COQUE_3D", "POU_D_E", "POU_D_T", "POU_D_TG", "BARRE", "DIS_T", "DIS_TR", "MEMBRANE", "DKTG", "Q4G", "GRILLE_MEMBRANE", "POU_D_EM"},
 "AFFE_MODELE.AFFE.PHENOMENE": {"MECANIQUE"},
 "DYNA_VIBRA.TYPE_CALCUL": {"HARM"}, "DYNA_VIBRA.BASE_CALCUL": {"PHYS", "GENE"},
 "CALC_MODES.OPTION": {"PLUS_PETITE", "BANDE", "CENTRE", "PROCHE", "SEPARE", "AJUSTE", "TOUT"},
 "AFFE_CARA_ELEM.POUTRE.SECTION": {"GENERALE", "RECTANGLE", "CERCLE"}, "AFFE_CARA_ELEM.BARRE.SECTION": {"GENERALE", "RECTANGLE", "CERCLE"},
 "CALC_MATR_ELEM.OPTION": {"RIGI_MECA", "MASS_MECA", "AMOR_MECA", "RIGI_GEOM", "RIGI_MECA_HYST"},
 "DEFI_FONCTION.PROL_DROITE": {"LINEAIRE", "CONSTANT", "EXCLU"}, "DEFI_FONCTION.PROL_GAUCHE": {"LINEAIRE", "CONSTANT", "EXCLU"}, "DEFI_FONCTION.INTERPOL": {"LIN", "LOG", "NON"},
 "AFFE_CHAR_MECA.LIAISON_DDL.DDL": {"DX", "DY", "DZ", "DRX", "DRY", "DRZ"},
 "STAT_NON_LINE.COMPORTEMENT.RELATION": {"ELAS", "VMIS_ISOT_LINE", "VMIS_ISOT_TRAC", "ELAS_VMIS_LINE", "ELAS_VMIS_TRAC", "ELAS_HYPER", "ELAS_POUTRE_GR", "DIS_CHOC"},
 "PROJ_BASE.VECT_ASSE_GENE.TYPE_VECT": {"FORC", "DEPL", "VITE", "ACCE"},
}
SAME = [("AFFE_CARA_ELEM.POUTRE", "CARA", "VALE"), ("AFFE_CARA_ELEM.BARRE", "CARA", "VALE"), ("AFFE_CHAR_MECA.LIAISON_DDL", "DDL", "COEF_MULT"),
        ("DEFI_CONTACT.ZONE", "NOM_CMP", "COEF_MULT"), ("AFFE_CHAR_MECA.LIAISON_RBE3", "DDL_ESCL", "NOEUD_ESCL")]

def kind(v):
    if isinstance(v, bool):
        return "?"
    if isinstance(v, str):
        return S
    if isinstance(v, numbers.Integral):
        return I
    if isinstance(v, numbers.Real):
        return R
    if isinstance(v, complex):
        return "C"
    if isinstance(v, C.CO):
        return "CO"
    if isinstance(v, C.Concept):
        return v.cmd
    if isinstance(v, dict):
        return "F"
    return "?"

def value(e, path, v, want):
    want = (want,) if isinstance(want, str) else want
    if "L" in want or "N" in want:
        return
    vs = seq(v)
    if not vs:
        e.append("%s: nothing given" % path)
    for x in vs:
        k = kind(x)
        if k in (R, I) and not math.isfinite(x):
            e.append("%s: %s" % (path, x))
        if k == "C" and not (math.isfinite(x.real) and math.isfinite(x.imag)):
            e.append("%s: %s" % (path, x))
        if k in want or (k == I and R in want) or (k in (I, R) and "C" in want):
            continue
        e.append("%s: %s instead of %s" % (path, k + (" " + x.name if isinstance(x, C.Concept) and x.name else ""), "/".join(want)))
    if path in VALUES:
        for x in vs:
            if isinstance(x, str) and x not in VALUES[path]:
                e.append("%s: value %r" % (path, x))

def call(e, path, args, cat, names):
    for k, v in args.items():
        p = path + "." + k
        if k not in cat:
            if not (k == "INFO"):
                e.append("%s: unknown keyword" % p)
            continue
        t = cat[k]
        if isinstance(t, dict):
            for f in seq(v):
                if not isinstance(f, dict):
                    e.append("%s: not a factor keyword" % p)
                else:
                    call(e, p, f, t, names)
        else:
            value(e, p, v, t)
        if k.startswith("GROUP_MA"):
            for g in seq(v):
                if g not in names["GROUP_MA"]:
                    e.append("%s: no group of cells %s in the mesh" % (p, g))
        elif k in ("MAILLE",):
            for g in seq(v):
                if g not in names["MAILLE"]:
                    e.append("%s: no cell %s in the mesh" % (p, g))
        elif k.startswith("GROUP_NO"):
            for g in seq(v):
                if g not in names["GROUP_NO"] and not (path == "POST_RELEVE_T.ACTION" and False):
                    e.append("%s: no group of nodes %s in the mesh" % (p, g))
        elif k.startswith("NOEUD"):
            for g in seq(v):
                if g not in names["NOEUD"]:
                    e.append("%s: no node %s in the mesh" % (p, g))
    for k in REQ.get(path, ()):
        if k not in args:
            e.append("%s: %s is missing" % (path, k))
    if path in ANY and not any(k in args for k in ANY[path]):
        e.append("%s: none of %s" % (path, "/".join(ANY[path])))
    for p, a, b in SAME:
        if p == path and len(seq(args.get(a))) != len(seq(args.get(b))):
            e.append("%s: %d %s for %d %s" % (path, len(seq(args.get(a))), a, len(seq(args.get(b))), b))

STRUCT = ("POU_D", "DKT", "COQUE", "BARRE", "DIS_", "Q4G", "DST")

def aster_lint(res, base="in"):
    e = []
    f = aster.read(res, base)
    if not hasattr(f, "comm"):
        return f.errors, f
    e += [x for x in f.errors if not x.startswith("two mesh nodes")]
    cm = f.comm
    names = {"GROUP_MA": set(f.cellgroup), "GROUP_NO": set(f.nodegroup), "MAILLE": set(), "NOEUD": set()}
    names["MAILLE"] = {c.name for c in f.cells}
    names["NOEUD"] = {(n[0] if n[0] != "-" else "N%s" % (n[2] if n[2] not in ("-", "0") else i + 1)) for i, n in enumerate(f.med.nodes)}
    seen = set()
    for name, cmd, a in cm.calls:
        if cmd not in CAT:
            e.append("unknown command %s" % cmd); continue
        call(e, cmd, a, CAT[cmd], names)
        if name:
            r = a.get("reuse")
            if name in seen and not (isinstance(r, C.Concept) and r.name == name):
                e.append("%s: concept %s is defined again" % (cmd, name))
            seen.add(name)
        if cmd == "DETRUIRE":
            for x in seq(a.get("CONCEPT")):
                for c in seq(x.get("NOM")):
                    seen.discard(c.name if isinstance(c, (C.Concept, C.CO)) else c)
    cmds = [c for _, c, _ in cm.calls]
    if not cmds or cmds[0] != "DEBUT":
        e.append("does not start with DEBUT")
    if not cmds or cmds[-1] != "FIN":
        e.append("does not end with FIN")
    # the model is complete where it is used
    if any(c in ("MECA_STATIQUE", "STAT_NON_LINE", "CALC_MATR_ELEM") for c in cmds):
        for c in f.cells:
            c.model = seq(c.model)[0] if c.model else None
            if c.model and not c.model.startswith("DIS_") and c.mat is None and c.model != "BARRE":
                e.append("cell %s (%s) has a model and no material" % (c.name, c.model))
            if c.model and any(c.model.startswith(s) for s in ("POU_D", "DKT", "COQUE", "BARRE")) and c.prop is None:
                e.append("cell %s (%s) has a model and no characteristics" % (c.name, c.model))
    for n in f.nodes.values():
        if not all(math.isfinite(x) for x in n):
            e.append("node at %s" % (n,))
    # the list of files
    ex = res.read(base + ".export")
    if ex is None:
        e.append("missing output file: .export")
    else:
        for line in ex.splitlines():
            w = line.split()
            if len(w) >= 5 and w[0] == "F" and w[3] == "D" or len(w) >= 5 and w[0] == "F" and "D" in w[3:4]:
                import os
                b = os.path.basename(w[2])
                if res.read(b) is None and res.read(b + ".txt") is None:
                    e.append("export: input file %s was not written" % b)
        kinds = [l.split()[1] for l in ex.splitlines() if l.startswith("F ")]
        for k in ("comm",):
            if k not in kinds:
                e.append("export: no %s file" % k)
        if not any(k in ("mail", "mmed") for k in kinds):
            e.append("export: no mesh file")
    return e, f

# ------------------------------------------------------------------ SYSTUS
BAD = re.compile(r"(?<![A-Za-z_])[-+]?(nan|inf)(?![A-Za-z_])", re.I)
def systus_lint(res, topaze=False):
    from lib import systus
    e = []
    fs = systus.files(res)
    if not fs:
        return ["no mesh file"], []
    out = []
    for n in fs:
        t = res.read(n)
        m, err = systus.matrix_files(res, n)
        f = systus.parse(t, m)
        f.errors += err
        out.append(f)
        e += ["%s: %s" % (n, x) for x in f.errors]
        for l in t.splitlines():
            if BAD.search(l) and not l.lstrip().startswith("#"):
                e.append("%s: %r" % (n, l[:80])); break
    if topaze:
        if res.read("in_ALL.DAT") is not None:
            e.append("a command file in_ALL.DAT for TOPAZE")
    elif res.read("in_ALL.DAT") is None:
        e.append("no command file in_ALL.DAT")
    else:
        every = res.read("in_ALL.DAT")
        for m in re.finditer(r"in_SC\d+\.DAT|in_SC\d+_DATA1\.ASC", every):
            if res.read(m.group(0)) is None:
                e.append("in_ALL.DAT refers to %s, which was not written" % m.group(0))
    for n in fs:
        k = re.match(r"in_SC(\d+)_DATA1\.ASC", n)
        if k and res.read("in_SC%s.DAT" % k.group(1)) is None:
            e.append("no command file for %s" % n)
    return e, out

# ------------------------------------------------------------------ NASTRAN
# card -> (kind of what its first field names, {field: kind of what it refers to}, range of node fields)
ELEM = {"CROD": (3, 4), "CBAR": (3, 4), "CBEAM": (3, 4), "CTUBE": (3, 4), "CBUSH": (3, 4), "CGAP": (3, 4), "CVISC": (3, 4), "CTRIA3": (3, 5), "CTRIA6": (3, 8), "CTRIAR": (3, 5), "CQUAD4": (3, 6), "CQUADR": (3, 6),
        "CQUAD8": (3, 10), "CQUAD": (3, 11), "CHEXA": (3, 22), "CPENTA": (3, 17), "CTETRA": (3, 12), "CPYRA": (3, 15), "CPYRAM": (3, 15), "CONROD": (2, 3), "CELAS4": (3, 4), "CELAS3": (3, 4), "CMASS2": None, "CELAS2": None,
        "CELAS1": None, "CDAMP1": None, "CONM1": None, "CONM2": None, "CDAMP2": None, "CMASS1": None, "RBE2": None, "RBE3": None, "RBAR": (2, 3), "CDAMP4": (3, 4), "RBE1": None, "PLOTEL": (2, 3), "CIHEX1": (3, 10), "CIHEX2": (3, 22)}
NOPROP = {"CONROD", "CELAS4", "CELAS2", "CMASS2", "CONM1", "CONM2", "CDAMP2", "CDAMP4", "RBE2", "RBE3", "RBAR", "RBE1", "PLOTEL"}
PROPS = {"PROD": (2,), "PBAR": (2,), "PBARL": (2,), "PBEAM": (2,), "PBEAML": (2,), "PTUBE": (2,), "PSOLID": (2,), "PSHELL": (2, 4, 6), "PCOMP": (), "PELAS": (), "PBUSH": (), "PGAP": (), "PDAMP": (), "PVISC": (), "PLSOLID": (2,), "PMASS": (), "PIHEX": (2,)}
MATS = {"MAT1", "MAT2", "MAT8", "MAT9", "MAT3", "MATHP"}
LOADS = {"FORCE": (3,), "MOMENT": (3,), "FORCE1": (3, 5, 6), "MOMENT1": (3, 5, 6), "FORCE2": (3, 5, 6, 7, 8), "SLOAD": (3,), "GRAV": (), "RFORCE": (3,), "PLOAD": (4, 5, 6, 7), "PLOAD1": (), "PLOAD2": (), "PLOAD4": (), "LOAD": (), "SPCD": (3,), "TEMP": (), "PLOADB3": ()}
OTHER = {"GRID", "SPOINT", "CORD1R", "CORD1C", "CORD1S", "CORD2R", "CORD2C", "CORD2S", "SPC", "SPC1", "SPCADD", "MPC", "MPCADD", "EIGR", "EIGRL", "EIGB", "EIGC", "NLPARM", "PARAM", "FREQ", "FREQ1", "FREQ2", "FREQ3", "FREQ4",
         "DLOAD", "RLOAD1", "RLOAD2", "DAREA", "TABLED1", "TABLES1", "TABDMP1", "DELAY", "DPHASE", "MATS1", "MATT1", "DMIG", "SET1", "SET3", "LSEQ", "TABLED2", "PLOADX", "DEFORM", "BCTABLE", "BSURF", "BCONP", "TSTEP"}

def nastran_lint(res, name="in_vg.nas"):
    from lib import nas
    e = []
    t = res.read(name)
    if t is None:
        return ["no file %s" % name], None
    up = [l.strip().upper() for l in t.splitlines() if l.strip() and not l.startswith("$")]
    for w in ("CEND", "ENDDATA"):
        if w not in up:
            e.append("no %s" % w)
    if not any(l.startswith("BEGIN") for l in up):
        e.append("no BEGIN BULK")
    if not any(l.startswith("SOL") for l in up):
        e.append("no SOL")
    for l in t.splitlines():
        if len(l.rstrip()) > 80 and not l.startswith("$") and "=" not in l:
            e.append("line longer than 80 characters: %r" % l[:90])
        if BAD.search(l) and not l.startswith("$") and "=" not in l:
            e.append("not a number: %r" % l[:80])
    head = re.split(r"^BEGIN", t, flags=re.M)[0]
    named = {}
    for m in re.finditer(r"^ *SET +(\d+) *= *((?:[^\n$]*,[^\n\d$]*\n)*[^\n$]*)", head, re.M | re.I):
        k, v = int(m.group(1)), [x.strip() for x in m.group(2).split(",")]
        if k in named:
            e.append("SET %d twice" % k)
        named[k] = v
        if v != ["ALL"] and not all(re.match(r"\d+( +THRU +\d+)?$", x) for x in v):
            e.append("SET %d holds %r" % (k, v[:6]))
    for m in re.finditer(r"^ *(DISP|STRESS)\w*(?:\(.*?\))? *= *(\d+)", head, re.M | re.I):
        if int(m.group(2)) not in named:
            e.append("%s of SET %s which is not defined" % (m.group(1), m.group(2)))
    ex, case, cards = nas.parse_bulk(t)
    nodes, elems, props, mats, cords = set(), {}, {}, set(), {0}
    sets = {k: set() for k in ("SPC", "MPC", "LOAD", "METHOD", "FREQ", "NLPARM", "DLOAD", "TABLE", "DAREA", "PHASE", "SDAMP")}
    fld = lambda c, i: c[i] if i < len(c) else None
    def new(s, k, what):
        if not isinstance(k, int) or k <= 0:
            e.append("%s with identifier %r" % (what, k))
        elif k in s:
            e.append("%s %s twice" % (what, k))
    for c in cards:
        n = c[0]
        if n in ELEM:
            if n not in ("RBE2", "RBE3", "RBAR") or True:
                new(elems, fld(c, 1), "element"); elems[fld(c, 1)] = c
        elif n in PROPS:
            new(props, fld(c, 1), "property"); props[fld(c, 1)] = c
        elif n in MATS:
            new(mats, fld(c, 1), "material"); mats.add(fld(c, 1))
        elif n == "GRID":
            new(nodes, fld(c, 1), "node"); nodes.add(fld(c, 1))
            for i in (3, 4, 5):
                if not isinstance(fld(c, i) or 0., (int, float)):
                    e.append("GRID %s: coordinate %r" % (fld(c, 1), fld(c, i)))
        elif n == "SPOINT":
            for x in c[1:]:
                if x is not None:
                    new(nodes, x, "node"); nodes.add(x)
        elif n.startswith("CORD"):
            new(cords, fld(c, 1), "coordinate system"); cords.add(fld(c, 1))
        elif n in LOADS:
            sets["LOAD"].add(fld(c, 1))
        elif n in ("SPC", "SPC1", "SPCADD"): sets["SPC"].add(fld(c, 1))
        elif n in ("MPC", "MPCADD"): sets["MPC"].add(fld(c, 1))
        elif n.startswith("EIG"): sets["METHOD"].add(fld(c, 1))
        elif n.startswith("FREQ"): sets["FREQ"].add(fld(c, 1))
        elif n == "NLPARM": sets["NLPARM"].add(fld(c, 1))
        elif n in ("DLOAD", "RLOAD1", "RLOAD2"): sets["DLOAD"].add(fld(c, 1))
        elif n in ("TABLED1", "TABLES1", "TABLED2"): sets["TABLE"].add(fld(c, 1))
        elif n == "TABDMP1": sets["SDAMP"].add(fld(c, 1))
        elif n == "DAREA": sets["DAREA"].add(fld(c, 1))
        elif n == "DPHASE": sets["PHASE"].add(fld(c, 1))
        elif n not in OTHER:
            e.append("unknown card %s" % n)
    def node(c, i, opt=True):
        v = fld(c, i)
        if v in (None, 0) and opt:
            return
        if v not in nodes:
            e.append("%s %s: no node %r" % (c[0], fld(c, 1), v))
    def is_in(c, i, s, what, opt=False):
        v = fld(c, i)
        if v in (None, 0, 0.) and opt:
            return
        if v not in s:
            e.append("%s %s: no %s %r" % (c[0], fld(c, 1), what, v))
    for c in cards:
        n = c[0]
        if n in ELEM:
            if n not in NOPROP:
                is_in(c, 2, props, "property")
            if n == "CONROD":
                is_in(c, 4, mats, "material")
            r = ELEM[n]
            if r:
                for i in range(r[0], r[1] + 1):
                    node(c, i)
                if all(fld(c, i) in (None, 0) for i in range(r[0], r[1] + 1)):
                    e.append("%s %s: no node" % (n, fld(c, 1)))
            elif n in ("CELAS1", "CDAMP1", "CELAS2", "CDAMP2", "CMASS1", "CMASS2"):
                node(c, 3); node(c, 5)
            elif n in ("CONM1", "CONM2"):
                node(c, 2, False)
            elif n == "RBE2":
                node(c, 2, False)
                for x in c[4:]:
                    if isinstance(x, int) and x not in nodes:
                        e.append("RBE2 %s: no node %r" % (fld(c, 1), x))
            elif n == "RBE3":
                node(c, 3, False)
            if n in ("CBAR", "CBEAM") and isinstance(fld(c, 5), int) and fld(c, 5):
                node(c, 5)
        elif n in PROPS:
            for i in PROPS[n]:
                is_in(c, i, mats, "material", opt=i != 2 or n == "PSHELL")
            if n == "PCOMP":
                for i in range(9, len(c), 4):
                    if i + 1 < len(c) and c[i] is not None:
                        is_in(c, i, mats, "material")
        elif n == "GRID":
            is_in(c, 2, cords, "coordinate system", True); is_in(c, 6, cords, "coordinate system", True)
        elif n in LOADS:
            if n not in ("LOAD", "TEMP"):
                for i in LOADS[n]:
                    node(c, i - 1)
            if n in ("FORCE", "MOMENT"):
                node(c, 2, False); is_in(c, 3, cords, "coordinate system", True)
            if n in ("PLOAD1", "PLOAD4"):
                is_in(c, 2, elems, "element")
            if n == "PLOAD2":
                for x in c[3:]:
                    if isinstance(x, int) and x not in elems:
                        e.append("PLOAD2 %s: no element %s" % (fld(c, 1), x))
            if n == "LOAD":
                for i in range(4, len(c), 2):
                    is_in(c, i, sets["LOAD"], "load set")
        elif n == "SPC":
            node(c, 2, False); node(c, 5)
        elif n == "SPC1":
            if "THRU" not in c:
                for x in c[3:]:
                    if isinstance(x, int) and x not in nodes:
                        e.append("SPC1 %s: no node %s" % (fld(c, 1), x))
        elif n == "SPCADD":
            for x in c[2:]:
                if x is not None and x not in sets["SPC"]:
                    e.append("SPCADD %s: no set %s" % (fld(c, 1), x))
        elif n == "MPC":
            for i in (2, 5):
                node(c, i)
        elif n == "DLOAD":
            for i in range(4, len(c), 2):
                is_in(c, i, sets["DLOAD"], "dynamic load")
        elif n in ("RLOAD1", "RLOAD2"):
            is_in(c, 2, sets["DAREA"] | sets["LOAD"], "amplitude"); is_in(c, 5, sets["TABLE"], "table", True); is_in(c, 6, sets["TABLE"], "table", True)
    glob, subs, sts = nas.parse_case(case)
    want = {"SPC": "SPC", "MPC": "MPC", "METH": "METHOD", "FREQ": "FREQ", "NLPA": "NLPARM", "DLOA": "DLOAD", "SDAM": "SDAMP", "LOAD": "LOAD"}
    for d in [glob] + [x for _, x in subs]:
        for k, v in d.items():
            if k in want:
                m = re.match(r"\d+$", v.strip())
                if m and int(v) not in sets[want[k]]:
                    e.append("case control %s=%s: no such set" % (k, v))
    ids = [i for i, _ in subs]
    if len(set(ids)) != len(ids):
        e.append("case control: subcases %s" % ids)
    if ids != sorted(ids):
        e.append("case control: subcases are not in order: %s" % ids)
    return e, cards

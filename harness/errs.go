package main

import (
	"context"
	stderrors "errors"

	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
)

var sentinels = []struct {
	code string
	err  error
}{
	{"MissingID", errors.ErrMissingID}, {"DuplicatedID", errors.ErrDuplicatedID}, {"MissingResource", errors.ErrMissingResource},
	{"DuplicatedIndices", errors.ErrDuplicatedIndices}, {"IndexOutOfBounds", errors.ErrIndexOutOfBounds},
	{"InsufficientVertices", errors.ErrInsufficientVertices}, {"InsufficientTriangles", errors.ErrInsufficientTriangles},
	{"ComponentsPID", errors.ErrComponentsPID}, {"OPCPartName", errors.ErrOPCPartName}, {"OPCRelTarget", errors.ErrOPCRelTarget},
	{"OPCDuplicatedRel", errors.ErrOPCDuplicatedRel}, {"OPCContentType", errors.ErrOPCContentType}, {"OPCDuplicatedTicket", errors.ErrOPCDuplicatedTicket},
	{"OPCDuplicatedModelName", errors.ErrOPCDuplicatedModelName}, {"MetadataName", errors.ErrMetadataName}, {"MetadataNamespace", errors.ErrMetadataNamespace},
	{"MetadataDuplicated", errors.ErrMetadataDuplicated}, {"OtherItem", errors.ErrOtherItem}, {"NonObject", errors.ErrNonObject},
	{"RequiredExt", errors.ErrRequiredExt}, {"EmptyResourceProps", errors.ErrEmptyResourceProps}, {"Recursion", errors.ErrRecursion},
	{"InvalidObject", errors.ErrInvalidObject}, {"MeshConsistency", errors.ErrMeshConsistency},
	{"TextureReference", materials.ErrTextureReference}, {"CompositeBase", materials.ErrCompositeBase}, {"MultiBlend", materials.ErrMultiBlend},
	{"MissingTexturePart", materials.ErrMissingTexturePart}, {"MultiRefMulti", materials.ErrMultiRefMulti}, {"MultiColors", materials.ErrMultiColors}, {"MaterialMulti", materials.ErrMaterialMulti},
	{"SliceExtRequired", slices.ErrSliceExtRequired}, {"NonSliceStack", slices.ErrNonSliceStack}, {"SlicesAndRefs", slices.ErrSlicesAndRefs},
	{"SliceRefSamePart", slices.ErrSliceRefSamePart}, {"SliceRefRef", slices.ErrSliceRefRef}, {"SliceSmallTopZ", slices.ErrSliceSmallTopZ},
	{"SliceNoMonotonic", slices.ErrSliceNoMonotonic}, {"SliceInsufficientVertices", slices.ErrSliceInsufficientVertices},
	{"SliceInsufficientPolygons", slices.ErrSliceInsufficientPolygons}, {"SliceInsufficientSegments", slices.ErrSliceInsufficientSegments},
	{"SlicePolygonNotClosed", slices.ErrSlicePolygonNotClosed}, {"SliceInvalidTransform", slices.ErrSliceInvalidTranform},
	{"LatticeObjType", beamlattice.ErrLatticeObjType}, {"LatticeClippedNoMesh", beamlattice.ErrLatticeClippedNoMesh},
	{"LatticeInvalidMesh", beamlattice.ErrLatticeInvalidMesh}, {"LatticeSameVertex", beamlattice.ErrLatticeSameVertex}, {"LatticeBeamR2", beamlattice.ErrLatticeBeamR2},
	{"UUID", production.ErrUUID}, {"ProdRefInNonRoot", production.ErrProdRefInNonRoot},
	{"canceled", context.Canceled}, {"deadline", context.DeadlineExceeded},
}

// code names the kind of an error.
func code(err error) string {
	var pa *errors.ParseAttrError
	if stderrors.As(err, &pa) {
		if pa.Required {
			return "attr:" + pa.Name + ":req"
		}
		return "attr:" + pa.Name + ":opt"
	}
	var mf *errors.MissingFieldError
	if stderrors.As(err, &mf) {
		return "missing:" + mf.Name
	}
	for _, s := range sentinels {
		if stderrors.Is(err, s.err) {
			return s.code
		}
	}
	return "other"
}

// flatten lists the members of an error as location, part and code.
func flatten(err error) L {
	r := L{}
	var walk func(err error)
	walk = func(err error) {
		switch e := err.(type) {
		case nil:
		case *errors.List:
			for _, x := range e.Errors {
				walk(x)
			}
		case *errors.Error:
			r = append(r, M{"x": e.XPath(), "p": e.Path, "c": code(e.Err)})
		default:
			r = append(r, M{"x": "", "p": "", "c": code(err)})
		}
	}
	walk(err)
	return r
}

SPECIFICATION Spec
INVARIANTS SamePicture UniqueIds OneCopy Untouched Export

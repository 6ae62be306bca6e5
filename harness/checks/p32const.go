package checks

import (
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
)

// consts32: what the constants the library offers for the specification's names are to be.
var consts32 = []struct{ name, is, want string }{
	{"common.CategorySecurity", string(common.CategorySecurity), "SECURITY"},
	{"common.TypeSecurityCPE23Type", string(common.TypeSecurityCPE23Type), "cpe23Type"},
	{"common.TypeSecurityCPE22Type", string(common.TypeSecurityCPE22Type), "cpe22Type"},
	{"common.TypeSecurityAdvisory", string(common.TypeSecurityAdvisory), "advisory"},
	{"common.TypeSecurityFix", string(common.TypeSecurityFix), "fix"},
	{"common.TypeSecurityUrl", string(common.TypeSecurityUrl), "url"},
	{"common.TypeSecuritySwid", string(common.TypeSecuritySwid), "swid"},
	{"common.CategoryPackageManager", string(common.CategoryPackageManager), "PACKAGE-MANAGER"},
	{"common.TypePackageManagerMavenCentral", string(common.TypePackageManagerMavenCentral), "maven-central"},
	{"common.TypePackageManagerNpm", string(common.TypePackageManagerNpm), "npm"},
	{"common.TypePackageManagerNuGet", string(common.TypePackageManagerNuGet), "nuget"},
	{"common.TypePackageManagerBower", string(common.TypePackageManagerBower), "bower"},
	{"common.TypePackageManagerPURL", string(common.TypePackageManagerPURL), "purl"},
	{"common.CategoryPersistentId", string(common.CategoryPersistentId), "PERSISTENT-ID"},
	{"common.TypePersistentIdSwh", string(common.TypePersistentIdSwh), "swh"},
	{"common.TypePersistentIdGitoid", string(common.TypePersistentIdGitoid), "gitoid"},
	{"common.CategoryOther", string(common.CategoryOther), "OTHER"},
	{"common.TypeRelationshipDescribe", string(common.TypeRelationshipDescribe), "DESCRIBES"},
	{"common.TypeRelationshipDescribeBy", string(common.TypeRelationshipDescribeBy), "DESCRIBED_BY"},
	{"common.TypeRelationshipContains", string(common.TypeRelationshipContains), "CONTAINS"},
	{"common.TypeRelationshipContainedBy", string(common.TypeRelationshipContainedBy), "CONTAINED_BY"},
	{"common.TypeRelationshipDependsOn", string(common.TypeRelationshipDependsOn), "DEPENDS_ON"},
	{"common.TypeRelationshipDependencyOf", string(common.TypeRelationshipDependencyOf), "DEPENDENCY_OF"},
	{"common.TypeRelationshipBuildDependencyOf", string(common.TypeRelationshipBuildDependencyOf), "BUILD_DEPENDENCY_OF"},
	{"common.TypeRelationshipDevDependencyOf", string(common.TypeRelationshipDevDependencyOf), "DEV_DEPENDENCY_OF"},
	{"common.TypeRelationshipOptionalDependencyOf", string(common.TypeRelationshipOptionalDependencyOf), "OPTIONAL_DEPENDENCY_OF"},
	{"common.TypeRelationshipProvidedDependencyOf", string(common.TypeRelationshipProvidedDependencyOf), "PROVIDED_DEPENDENCY_OF"},
	{"common.TypeRelationshipTestDependencyOf", string(common.TypeRelationshipTestDependencyOf), "TEST_DEPENDENCY_OF"},
	{"common.TypeRelationshipRuntimeDependencyOf", string(common.TypeRelationshipRuntimeDependencyOf), "RUNTIME_DEPENDENCY_OF"},
	{"common.TypeRelationshipExampleOf", string(common.TypeRelationshipExampleOf), "EXAMPLE_OF"},
	{"common.TypeRelationshipGenerates", string(common.TypeRelationshipGenerates), "GENERATES"},
	{"common.TypeRelationshipGeneratedFrom", string(common.TypeRelationshipGeneratedFrom), "GENERATED_FROM"},
	{"common.TypeRelationshipAncestorOf", string(common.TypeRelationshipAncestorOf), "ANCESTOR_OF"},
	{"common.TypeRelationshipDescendantOf", string(common.TypeRelationshipDescendantOf), "DESCENDANT_OF"},
	{"common.TypeRelationshipVariantOf", string(common.TypeRelationshipVariantOf), "VARIANT_OF"},
	{"common.TypeRelationshipDistributionArtifact", string(common.TypeRelationshipDistributionArtifact), "DISTRIBUTION_ARTIFACT"},
	{"common.TypeRelationshipPatchFor", string(common.TypeRelationshipPatchFor), "PATCH_FOR"},
	{"common.TypeRelationshipPatchApplied", string(common.TypeRelationshipPatchApplied), "PATCH_APPLIED"},
	{"common.TypeRelationshipCopyOf", string(common.TypeRelationshipCopyOf), "COPY_OF"},
	{"common.TypeRelationshipFileAdded", string(common.TypeRelationshipFileAdded), "FILE_ADDED"},
	{"common.TypeRelationshipFileDeleted", string(common.TypeRelationshipFileDeleted), "FILE_DELETED"},
	{"common.TypeRelationshipFileModified", string(common.TypeRelationshipFileModified), "FILE_MODIFIED"},
	{"common.TypeRelationshipExpandedFromArchive", string(common.TypeRelationshipExpandedFromArchive), "EXPANDED_FROM_ARCHIVE"},
	{"common.TypeRelationshipDynamicLink", string(common.TypeRelationshipDynamicLink), "DYNAMIC_LINK"},
	{"common.TypeRelationshipStaticLink", string(common.TypeRelationshipStaticLink), "STATIC_LINK"},
	{"common.TypeRelationshipDataFileOf", string(common.TypeRelationshipDataFileOf), "DATA_FILE_OF"},
	{"common.TypeRelationshipTestCaseOf", string(common.TypeRelationshipTestCaseOf), "TEST_CASE_OF"},
	{"common.TypeRelationshipBuildToolOf", string(common.TypeRelationshipBuildToolOf), "BUILD_TOOL_OF"},
	{"common.TypeRelationshipDevToolOf", string(common.TypeRelationshipDevToolOf), "DEV_TOOL_OF"},
	{"common.TypeRelationshipTestOf", string(common.TypeRelationshipTestOf), "TEST_OF"},
	{"common.TypeRelationshipTestToolOf", string(common.TypeRelationshipTestToolOf), "TEST_TOOL_OF"},
	{"common.TypeRelationshipDocumentationOf", string(common.TypeRelationshipDocumentationOf), "DOCUMENTATION_OF"},
	{"common.TypeRelationshipOptionalComponentOf", string(common.TypeRelationshipOptionalComponentOf), "OPTIONAL_COMPONENT_OF"},
	{"common.TypeRelationshipMetafileOf", string(common.TypeRelationshipMetafileOf), "METAFILE_OF"},
	{"common.TypeRelationshipPackageOf", string(common.TypeRelationshipPackageOf), "PACKAGE_OF"},
	{"common.TypeRelationshipAmends", string(common.TypeRelationshipAmends), "AMENDS"},
	{"common.TypeRelationshipPrerequisiteFor", string(common.TypeRelationshipPrerequisiteFor), "PREREQUISITE_FOR"},
	{"common.TypeRelationshipHasPrerequisite", string(common.TypeRelationshipHasPrerequisite), "HAS_PREREQUISITE"},
	{"common.TypeRelationshipRequirementDescriptionFor", string(common.TypeRelationshipRequirementDescriptionFor), "REQUIREMENT_DESCRIPTION_FOR"},
	{"common.TypeRelationshipSpecificationFor", string(common.TypeRelationshipSpecificationFor), "SPECIFICATION_FOR"},
	{"common.TypeRelationshipOther", string(common.TypeRelationshipOther), "OTHER"},
	{"common.SHA224", string(common.SHA224), "SHA224"},
	{"common.SHA1", string(common.SHA1), "SHA1"},
	{"common.SHA256", string(common.SHA256), "SHA256"},
	{"common.SHA384", string(common.SHA384), "SHA384"},
	{"common.SHA512", string(common.SHA512), "SHA512"},
	{"common.MD2", string(common.MD2), "MD2"},
	{"common.MD4", string(common.MD4), "MD4"},
	{"common.MD5", string(common.MD5), "MD5"},
	{"common.MD6", string(common.MD6), "MD6"},
	{"common.SHA3_256", string(common.SHA3_256), "SHA3-256"},
	{"common.SHA3_384", string(common.SHA3_384), "SHA3-384"},
	{"common.SHA3_512", string(common.SHA3_512), "SHA3-512"},
	{"common.BLAKE2b_256", string(common.BLAKE2b_256), "BLAKE2b-256"},
	{"common.BLAKE2b_384", string(common.BLAKE2b_384), "BLAKE2b-384"},
	{"common.BLAKE2b_512", string(common.BLAKE2b_512), "BLAKE2b-512"},
	{"common.BLAKE3", string(common.BLAKE3), "BLAKE3"},
	{"common.ADLER32", string(common.ADLER32), "ADLER32"},
	{"spdx.SHA224", string(spdx.SHA224), "SHA224"},
	{"spdx.SHA1", string(spdx.SHA1), "SHA1"},
	{"spdx.SHA256", string(spdx.SHA256), "SHA256"},
	{"spdx.SHA384", string(spdx.SHA384), "SHA384"},
	{"spdx.SHA512", string(spdx.SHA512), "SHA512"},
	{"spdx.MD2", string(spdx.MD2), "MD2"},
	{"spdx.MD4", string(spdx.MD4), "MD4"},
	{"spdx.MD5", string(spdx.MD5), "MD5"},
	{"spdx.MD6", string(spdx.MD6), "MD6"},
	{"spdx.SHA3_256", string(spdx.SHA3_256), "SHA3-256"},
	{"spdx.SHA3_384", string(spdx.SHA3_384), "SHA3-384"},
	{"spdx.SHA3_512", string(spdx.SHA3_512), "SHA3-512"},
	{"spdx.BLAKE2b_256", string(spdx.BLAKE2b_256), "BLAKE2b-256"},
	{"spdx.BLAKE2b_384", string(spdx.BLAKE2b_384), "BLAKE2b-384"},
	{"spdx.BLAKE2b_512", string(spdx.BLAKE2b_512), "BLAKE2b-512"},
	{"spdx.BLAKE3", string(spdx.BLAKE3), "BLAKE3"},
	{"spdx.ADLER32", string(spdx.ADLER32), "ADLER32"},
	{"spdx.CategorySecurity", string(spdx.CategorySecurity), "SECURITY"},
	{"spdx.SecurityCPE23Type", string(spdx.SecurityCPE23Type), "cpe23Type"},
	{"spdx.SecurityCPE22Type", string(spdx.SecurityCPE22Type), "cpe22Type"},
	{"spdx.SecurityAdvisory", string(spdx.SecurityAdvisory), "advisory"},
	{"spdx.SecurityFix", string(spdx.SecurityFix), "fix"},
	{"spdx.SecurityUrl", string(spdx.SecurityUrl), "url"},
	{"spdx.SecuritySwid", string(spdx.SecuritySwid), "swid"},
	{"spdx.CategoryPackageManager", string(spdx.CategoryPackageManager), "PACKAGE-MANAGER"},
	{"spdx.PackageManagerMavenCentral", string(spdx.PackageManagerMavenCentral), "maven-central"},
	{"spdx.PackageManagerNpm", string(spdx.PackageManagerNpm), "npm"},
	{"spdx.PackageManagerNuGet", string(spdx.PackageManagerNuGet), "nuget"},
	{"spdx.PackageManagerBower", string(spdx.PackageManagerBower), "bower"},
	{"spdx.PackageManagerPURL", string(spdx.PackageManagerPURL), "purl"},
	{"spdx.CategoryPersistentId", string(spdx.CategoryPersistentId), "PERSISTENT-ID"},
	{"spdx.TypePersistentIdSwh", string(spdx.TypePersistentIdSwh), "swh"},
	{"spdx.TypePersistentIdGitoid", string(spdx.TypePersistentIdGitoid), "gitoid"},
	{"spdx.CategoryOther", string(spdx.CategoryOther), "OTHER"},
	{"spdx.RelationshipDescribes", string(spdx.RelationshipDescribes), "DESCRIBES"},
	{"spdx.RelationshipDescribedBy", string(spdx.RelationshipDescribedBy), "DESCRIBED_BY"},
	{"spdx.RelationshipContains", string(spdx.RelationshipContains), "CONTAINS"},
	{"spdx.RelationshipContainedBy", string(spdx.RelationshipContainedBy), "CONTAINED_BY"},
	{"spdx.RelationshipDependsOn", string(spdx.RelationshipDependsOn), "DEPENDS_ON"},
	{"spdx.RelationshipDependencyOf", string(spdx.RelationshipDependencyOf), "DEPENDENCY_OF"},
	{"spdx.RelationshipBuildDependencyOf", string(spdx.RelationshipBuildDependencyOf), "BUILD_DEPENDENCY_OF"},
	{"spdx.RelationshipDevDependencyOf", string(spdx.RelationshipDevDependencyOf), "DEV_DEPENDENCY_OF"},
	{"spdx.RelationshipOptionalDependencyOf", string(spdx.RelationshipOptionalDependencyOf), "OPTIONAL_DEPENDENCY_OF"},
	{"spdx.RelationshipProvidedDependencyOf", string(spdx.RelationshipProvidedDependencyOf), "PROVIDED_DEPENDENCY_OF"},
	{"spdx.RelationshipTestDependencyOf", string(spdx.RelationshipTestDependencyOf), "TEST_DEPENDENCY_OF"},
	{"spdx.RelationshipRuntimeDependencyOf", string(spdx.RelationshipRuntimeDependencyOf), "RUNTIME_DEPENDENCY_OF"},
	{"spdx.RelationshipExampleOf", string(spdx.RelationshipExampleOf), "EXAMPLE_OF"},
	{"spdx.RelationshipGenerates", string(spdx.RelationshipGenerates), "GENERATES"},
	{"spdx.RelationshipGeneratedFrom", string(spdx.RelationshipGeneratedFrom), "GENERATED_FROM"},
	{"spdx.RelationshipAncestorOf", string(spdx.RelationshipAncestorOf), "ANCESTOR_OF"},
	{"spdx.RelationshipDescendantOf", string(spdx.RelationshipDescendantOf), "DESCENDANT_OF"},
	{"spdx.RelationshipVariantOf", string(spdx.RelationshipVariantOf), "VARIANT_OF"},
	{"spdx.RelationshipDistributionArtifact", string(spdx.RelationshipDistributionArtifact), "DISTRIBUTION_ARTIFACT"},
	{"spdx.RelationshipPatchFor", string(spdx.RelationshipPatchFor), "PATCH_FOR"},
	{"spdx.RelationshipPatchApplied", string(spdx.RelationshipPatchApplied), "PATCH_APPLIED"},
	{"spdx.RelationshipCopyOf", string(spdx.RelationshipCopyOf), "COPY_OF"},
	{"spdx.RelationshipFileAdded", string(spdx.RelationshipFileAdded), "FILE_ADDED"},
	{"spdx.RelationshipFileDeleted", string(spdx.RelationshipFileDeleted), "FILE_DELETED"},
	{"spdx.RelationshipFileModified", string(spdx.RelationshipFileModified), "FILE_MODIFIED"},
	{"spdx.RelationshipExpandedFromArchive", string(spdx.RelationshipExpandedFromArchive), "EXPANDED_FROM_ARCHIVE"},
	{"spdx.RelationshipDynamicLink", string(spdx.RelationshipDynamicLink), "DYNAMIC_LINK"},
	{"spdx.RelationshipStaticLink", string(spdx.RelationshipStaticLink), "STATIC_LINK"},
	{"spdx.RelationshipDataFileOf", string(spdx.RelationshipDataFileOf), "DATA_FILE_OF"},
	{"spdx.RelationshipTestCaseOf", string(spdx.RelationshipTestCaseOf), "TEST_CASE_OF"},
	{"spdx.RelationshipBuildToolOf", string(spdx.RelationshipBuildToolOf), "BUILD_TOOL_OF"},
	{"spdx.RelationshipDevToolOf", string(spdx.RelationshipDevToolOf), "DEV_TOOL_OF"},
	{"spdx.RelationshipTestOf", string(spdx.RelationshipTestOf), "TEST_OF"},
	{"spdx.RelationshipTestToolOf", string(spdx.RelationshipTestToolOf), "TEST_TOOL_OF"},
	{"spdx.RelationshipDocumentationOf", string(spdx.RelationshipDocumentationOf), "DOCUMENTATION_OF"},
	{"spdx.RelationshipOptionalComponentOf", string(spdx.RelationshipOptionalComponentOf), "OPTIONAL_COMPONENT_OF"},
	{"spdx.RelationshipMetafileOf", string(spdx.RelationshipMetafileOf), "METAFILE_OF"},
	{"spdx.RelationshipPackageOf", string(spdx.RelationshipPackageOf), "PACKAGE_OF"},
	{"spdx.RelationshipAmends", string(spdx.RelationshipAmends), "AMENDS"},
	{"spdx.RelationshipPrerequisiteFor", string(spdx.RelationshipPrerequisiteFor), "PREREQUISITE_FOR"},
	{"spdx.RelationshipHasPrerequisite", string(spdx.RelationshipHasPrerequisite), "HAS_PREREQUISITE"},
	{"spdx.RelationshipRequirementDescriptionFor", string(spdx.RelationshipRequirementDescriptionFor), "REQUIREMENT_DESCRIPTION_FOR"},
	{"spdx.RelationshipSpecificationFor", string(spdx.RelationshipSpecificationFor), "SPECIFICATION_FOR"},
	{"spdx.RelationshipOther", string(spdx.RelationshipOther), "OTHER"},
}

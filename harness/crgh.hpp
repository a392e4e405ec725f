// Runtime side of the contracts: a recording stand-in for the Vulkan device and a small driver that
// replays contract instances (seeded) on the library compiled from /repo's working tree.
#pragma once
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/Log.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace h
{
	// ------------------------------------------------------------------ random choices
	struct Rng
	{
		uint64_t s;
		std::vector< uint64_t > const * dict{};
		explicit Rng( uint64_t seed ):s{ seed }{}
		uint64_t next()
		{
			uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
			z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
			z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
			return z ^ ( z >> 31 );
		}
		uint32_t below( uint32_t n ){ return n ? uint32_t( next() % n ) : 0u; }
		uint32_t range( uint32_t lo, uint32_t hi ){ return lo + below( hi - lo + 1u ); }
		bool flip(){ return ( next() & 1 ) != 0; }
		bool chance( uint32_t num, uint32_t den ){ return below( den ) < num; }
		template< typename T > T const & pick( std::vector< T > const & v ){ return v[below( uint32_t( v.size() ) )]; }
		template< typename T > T pick( std::initializer_list< T > v ){ return *( v.begin() + below( uint32_t( v.size() ) ) ); }
		// arbitrary 32-bit value, small values and the verifier's counterexample constants preferred
		uint32_t any32()
		{
			switch ( below( 5 ) )
			{
			case 0: return below( 4 );
			case 1: return below( 64 );
			case 2: return 1u << below( 32 );
			case 3: if ( dict && !dict->empty() ) return uint32_t( ( *dict )[below( uint32_t( dict->size() ) )] ); [[fallthrough]];
			default: return uint32_t( next() );
			}
		}
	};

	// ------------------------------------------------------------------ failures
	struct Failure : std::runtime_error
	{
		using std::runtime_error::runtime_error;
	};

	struct Ctx
	{
		std::ostringstream in;          // description of the inputs of the current case
		uint64_t checks{};
		std::set< size_t > distinct;
		template< typename T > void note( char const * k, T const & v ){ in << k << "=" << v << " "; }
		void require( bool c, std::string const & what )
		{
			++checks;
			if ( !c ) throw Failure{ what };
		}
		template< typename A, typename B > void eq( A const & a, B const & b, std::string const & what )
		{
			++checks;
			if ( !( a == b ) )
			{
				std::ostringstream o;
				o << what << ": got " << a << ", the contract says " << b;
				throw Failure{ o.str() };
			}
		}
	};

	using CaseFn = void ( * )( Rng &, Ctx & );
	struct Case
	{
		char const * name;
		uint32_t quick;                 // instances in the quick tier
		CaseFn fn;
	};
	inline std::vector< Case > & cases(){ static std::vector< Case > c; return c; }
	struct Reg{ Reg( char const * n, uint32_t q, CaseFn f ){ cases().push_back( { n, q, f } ); } };
#define CASE( Name, Quick )\
	static void case_##Name( h::Rng & rng, h::Ctx & cx );\
	static h::Reg reg_##Name{ #Name, Quick, &case_##Name };\
	static void case_##Name( [[maybe_unused]] h::Rng & rng, [[maybe_unused]] h::Ctx & cx )

	// ------------------------------------------------------------------ ghost trace of device calls
	struct Rec
	{
		std::string fn;
		std::vector< std::pair< std::string, uint64_t > > f;
		uint64_t get( std::string const & k )const
		{
			for ( auto & p : f ) if ( p.first == k ) return p.second;
			throw Failure{ "harness: no field " + k + " in " + fn };
		}
		Rec & operator()( std::string k, uint64_t v ){ f.emplace_back( std::move( k ), v ); return *this; }
		bool operator==( Rec const & r )const{ return fn == r.fn && f == r.f; }
	};
	inline std::string str( Rec const & r )
	{
		std::ostringstream o;
		o << r.fn << "(";
		for ( auto & p : r.f ) o << " " << p.first << "=" << p.second;
		o << " )";
		return o.str();
	}
	inline std::ostream & operator<<( std::ostream & s, Rec const & r ){ return s << str( r ); }
	inline std::string str( std::vector< Rec > const & v )
	{
		std::string r = "[";
		for ( auto & x : v ) r += "\n    " + str( x );
		return r + "]";
	}
	inline std::ostream & operator<<( std::ostream & s, std::vector< Rec > const & r ){ return s << str( r ); }

	struct World
	{
		std::vector< Rec > trace;
		uint64_t nextHandle{ 0x1000 };
		std::map< uint64_t, std::string > alive;     // handle -> kind
		std::vector< std::string > errors;           // device-level misuse (double destroy ...)
		std::map< std::string, int > failAt;         // fn -> fail at the n-th call (1 = next)
		VkResult failWith{ VK_ERROR_OUT_OF_DEVICE_MEMORY };
		std::map< uint64_t, uint64_t > tag;          // handle -> user tag
		VkMemoryRequirements memReq{ 256u, 16u, 0xFFFFFFFFu };
		std::map< uint64_t, std::vector< char > > mapped;
		VkResult queryResult{ VK_SUCCESS };
		uint64_t queryValues[2]{ 0, 0 };
		std::map< uint64_t, bool > fenceSignaled;
		bool recordDebug{ false };
	};
	inline World & world(){ static World w; return w; }
	inline void reset(){ world() = World{}; }
	inline Rec & rec( char const * fn ){ world().trace.push_back( Rec{ fn, {} } ); return world().trace.back(); }
	template< typename T > uint64_t H( T h ){ return uint64_t( h ); }
	inline VkResult fails( char const * fn )
	{
		auto it = world().failAt.find( fn );
		if ( it != world().failAt.end() && --it->second == 0 ) return world().failWith;
		return VK_SUCCESS;
	}
	template< typename T > T make( char const * kind )
	{
		auto v = ++world().nextHandle;
		world().alive[v] = kind;
		return T( v );
	}
	template< typename T > void kill( char const * kind, T hnd )
	{
		auto it = world().alive.find( H( hnd ) );
		if ( it == world().alive.end() || it->second != kind )
			world().errors.push_back( std::string( "destroy of " ) + kind + " " + std::to_string( H( hnd ) ) + " which is not alive" );
		else world().alive.erase( it );
	}
	inline std::vector< Rec > cmds( std::string const & prefix = "vkCmd" )
	{
		std::vector< Rec > r;
		for ( auto & c : world().trace ) if ( c.fn.compare( 0, prefix.size(), prefix ) == 0 ) r.push_back( c );
		return r;
	}
	inline std::vector< Rec > named( std::string const & fn )
	{
		std::vector< Rec > r;
		for ( auto & c : world().trace ) if ( c.fn == fn ) r.push_back( c );
		return r;
	}
	inline size_t countAlive( std::string const & kind )
	{
		size_t n = 0;
		for ( auto & p : world().alive ) n += p.second == kind;
		return n;
	}

	inline void range( Rec & r, VkImageSubresourceRange const & s )
	{
		r( "aspect", s.aspectMask )( "baseMip", s.baseMipLevel )( "mips", s.levelCount )( "baseLayer", s.baseArrayLayer )( "layers", s.layerCount );
	}
	inline void layers( Rec & r, std::string p, VkImageSubresourceLayers const & s )
	{
		r( p + ".aspect", s.aspectMask )( p + ".mip", s.mipLevel )( p + ".baseLayer", s.baseArrayLayer )( p + ".layers", s.layerCount );
	}
	inline void off( Rec & r, std::string p, VkOffset3D const & o ){ r( p + ".x", uint32_t( o.x ) )( p + ".y", uint32_t( o.y ) )( p + ".z", uint32_t( o.z ) ); }
	inline void ext( Rec & r, std::string p, VkExtent3D const & o ){ r( p + ".w", o.width )( p + ".h", o.height )( p + ".d", o.depth ); }

	inline uint64_t fbits( float f ){ uint32_t u; std::memcpy( &u, &f, 4 ); return u; }
	// ------------------------------------------------------------------ the device
#define CREATE( Name, Type, Info, Extra )\
	inline VKAPI_ATTR VkResult VKAPI_CALL create##Name( VkDevice, Info const * i, VkAllocationCallbacks const *, Type * o )\
	{ auto & r = rec( "vkCreate" #Name ); auto f = fails( "vkCreate" #Name ); ( void )i; Extra; if ( f != VK_SUCCESS ){ r( "result", uint64_t( f ) ); return f; } *o = make< Type >( #Name ); r( "handle", H( *o ) ); return VK_SUCCESS; }\
	inline VKAPI_ATTR void VKAPI_CALL destroy##Name( VkDevice, Type hnd, VkAllocationCallbacks const * )\
	{ rec( "vkDestroy" #Name )( "handle", H( hnd ) ); if ( hnd ) kill( #Name, hnd ); }

	CREATE( Buffer, VkBuffer, VkBufferCreateInfo, r( "size", i->size )( "usage", i->usage ) )
	CREATE( Image, VkImage, VkImageCreateInfo, r( "flags", i->flags )( "type", i->imageType )( "format", i->format )( "w", i->extent.width )( "h", i->extent.height )( "d", i->extent.depth )( "mips", i->mipLevels )( "layers", i->arrayLayers )( "usage", i->usage )( "samples", i->samples )( "tiling", i->tiling ) )
	CREATE( ImageView, VkImageView, VkImageViewCreateInfo, ( r( "image", H( i->image ) )( "viewType", i->viewType )( "format", i->format ), range( r, i->subresourceRange ) ) )
	CREATE( Sampler, VkSampler, VkSamplerCreateInfo, r( "min", i->minFilter )( "mag", i->magFilter )( "mip", i->mipmapMode )( "u", i->addressModeU )( "v", i->addressModeV )( "w", i->addressModeW )( "bias", fbits( i->mipLodBias ) )( "minLod", fbits( i->minLod ) )( "maxLod", fbits( i->maxLod ) )( "cmpEn", i->compareEnable )( "cmp", i->compareOp )( "border", i->borderColor ) )
	CREATE( PipelineLayout, VkPipelineLayout, VkPipelineLayoutCreateInfo, { r( "sets", i->setLayoutCount )( "push", i->pushConstantRangeCount ); for ( uint32_t k = 0; k < i->setLayoutCount; ++k ) r( "set" + std::to_string( k ), H( i->pSetLayouts[k] ) ); for ( uint32_t k = 0; k < i->pushConstantRangeCount; ++k ) r( "pc" + std::to_string( k ) + ".stages", i->pPushConstantRanges[k].stageFlags )( "pc" + std::to_string( k ) + ".off", i->pPushConstantRanges[k].offset )( "pc" + std::to_string( k ) + ".size", i->pPushConstantRanges[k].size ); } )
	CREATE( DescriptorSetLayout, VkDescriptorSetLayout, VkDescriptorSetLayoutCreateInfo, { r( "n", i->bindingCount ); for ( uint32_t k = 0; k < i->bindingCount; ++k ) { auto p = "b" + std::to_string( k ); r( p + ".binding", i->pBindings[k].binding )( p + ".type", i->pBindings[k].descriptorType )( p + ".count", i->pBindings[k].descriptorCount )( p + ".stages", i->pBindings[k].stageFlags ); } } )
	CREATE( DescriptorPool, VkDescriptorPool, VkDescriptorPoolCreateInfo, { r( "flags", i->flags )( "maxSets", i->maxSets )( "n", i->poolSizeCount ); for ( uint32_t k = 0; k < i->poolSizeCount; ++k ) { auto p = "s" + std::to_string( k ); r( p + ".type", i->pPoolSizes[k].type )( p + ".count", i->pPoolSizes[k].descriptorCount ); } } )
	CREATE( RenderPass, VkRenderPass, VkRenderPassCreateInfo, { r( "atts", i->attachmentCount )( "subs", i->subpassCount )( "deps", i->dependencyCount );
		for ( uint32_t k = 0; k < i->attachmentCount; ++k ) { auto p = "a" + std::to_string( k ); auto & a = i->pAttachments[k]; r( p + ".format", a.format )( p + ".samples", a.samples )( p + ".load", a.loadOp )( p + ".store", a.storeOp )( p + ".sload", a.stencilLoadOp )( p + ".sstore", a.stencilStoreOp )( p + ".init", a.initialLayout )( p + ".final", a.finalLayout ); }
		for ( uint32_t k = 0; k < i->subpassCount; ++k ) { auto p = "sp" + std::to_string( k ); auto & a = i->pSubpasses[k]; r( p + ".bind", a.pipelineBindPoint )( p + ".colours", a.colorAttachmentCount ); for ( uint32_t c = 0; c < a.colorAttachmentCount; ++c ) r( p + ".c" + std::to_string( c ) + ".att", a.pColorAttachments[c].attachment )( p + ".c" + std::to_string( c ) + ".layout", a.pColorAttachments[c].layout ); r( p + ".hasDs", a.pDepthStencilAttachment != nullptr ); if ( a.pDepthStencilAttachment ) r( p + ".ds.att", a.pDepthStencilAttachment->attachment )( p + ".ds.layout", a.pDepthStencilAttachment->layout ); r( p + ".inputs", a.inputAttachmentCount )( p + ".resolve", a.pResolveAttachments != nullptr ); }
		for ( uint32_t k = 0; k < i->dependencyCount; ++k ) { auto p = "d" + std::to_string( k ); auto & a = i->pDependencies[k]; r( p + ".src", a.srcSubpass )( p + ".dst", a.dstSubpass )( p + ".srcStage", a.srcStageMask )( p + ".dstStage", a.dstStageMask )( p + ".srcAccess", a.srcAccessMask )( p + ".dstAccess", a.dstAccessMask )( p + ".flags", a.dependencyFlags ); } } )
	CREATE( Framebuffer, VkFramebuffer, VkFramebufferCreateInfo, { r( "renderPass", H( i->renderPass ) )( "n", i->attachmentCount )( "w", i->width )( "h", i->height )( "layers", i->layers ); for ( uint32_t k = 0; k < i->attachmentCount; ++k ) r( "v" + std::to_string( k ), H( i->pAttachments[k] ) ); } )
	CREATE( CommandPool, VkCommandPool, VkCommandPoolCreateInfo, r( "flags", i->flags ) )
	CREATE( Semaphore, VkSemaphore, VkSemaphoreCreateInfo, r( "flags", i->flags ) )
	CREATE( QueryPool, VkQueryPool, VkQueryPoolCreateInfo, r( "type", i->queryType )( "count", i->queryCount ) )
	CREATE( Event, VkEvent, VkEventCreateInfo, r( "flags", i->flags ) )
	CREATE( Fence, VkFence, VkFenceCreateInfo, r( "flags", i->flags ) )
#undef CREATE
	inline VKAPI_ATTR VkResult VKAPI_CALL createGraphicsPipelines( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * i, VkAllocationCallbacks const *, VkPipeline * o )
	{
		auto f = fails( "vkCreateGraphicsPipelines" );
		for ( uint32_t k = 0; k < n; ++k )
		{
			auto & r = rec( "vkCreateGraphicsPipelines" )( "layout", H( i[k].layout ) )( "renderPass", H( i[k].renderPass ) )( "stages", i[k].stageCount );
			if ( i[k].pInputAssemblyState ) r( "topology", i[k].pInputAssemblyState->topology );
			if ( i[k].pColorBlendState ) { r( "blends", i[k].pColorBlendState->attachmentCount ); }
			if ( i[k].pViewportState ) { r( "viewports", i[k].pViewportState->viewportCount ); if ( i[k].pViewportState->pViewports ) r( "vp.w", uint64_t( i[k].pViewportState->pViewports->width ) )( "vp.h", uint64_t( i[k].pViewportState->pViewports->height ) ); }
			if ( i[k].pRasterizationState ) r( "cull", i[k].pRasterizationState->cullMode );
			if ( f == VK_SUCCESS ) { o[k] = make< VkPipeline >( "Pipeline" ); r( "handle", H( o[k] ) ); }
		}
		return f;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL createComputePipelines( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * i, VkAllocationCallbacks const *, VkPipeline * o )
	{
		auto f = fails( "vkCreateComputePipelines" );
		for ( uint32_t k = 0; k < n; ++k )
		{
			auto & r = rec( "vkCreateComputePipelines" )( "layout", H( i[k].layout ) )( "module", H( i[k].stage.module ) );
			if ( f == VK_SUCCESS ) { o[k] = make< VkPipeline >( "Pipeline" ); r( "handle", H( o[k] ) ); }
		}
		return f;
	}
	inline VKAPI_ATTR void VKAPI_CALL destroyPipeline( VkDevice, VkPipeline p, VkAllocationCallbacks const * ){ rec( "vkDestroyPipeline" )( "handle", H( p ) ); if ( p ) kill( "Pipeline", p ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL allocateDescriptorSets( VkDevice, VkDescriptorSetAllocateInfo const * i, VkDescriptorSet * o )
	{
		auto f = fails( "vkAllocateDescriptorSets" );
		auto & r = rec( "vkAllocateDescriptorSets" )( "pool", H( i->descriptorPool ) )( "n", i->descriptorSetCount );
		for ( uint32_t k = 0; k < i->descriptorSetCount; ++k ) { r( "layout" + std::to_string( k ), H( i->pSetLayouts[k] ) ); if ( f == VK_SUCCESS ) { o[k] = make< VkDescriptorSet >( "DescriptorSet" ); r( "handle" + std::to_string( k ), H( o[k] ) ); } }
		return f;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL freeDescriptorSets( VkDevice, VkDescriptorPool p, uint32_t n, VkDescriptorSet const * s )
	{
		for ( uint32_t k = 0; k < n; ++k ) { rec( "vkFreeDescriptorSets" )( "pool", H( p ) )( "handle", H( s[k] ) ); if ( s[k] ) kill( "DescriptorSet", s[k] ); }
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR void VKAPI_CALL updateDescriptorSets( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t nc, VkCopyDescriptorSet const * )
	{
		rec( "vkUpdateDescriptorSets" )( "n", n )( "copies", nc );
		for ( uint32_t k = 0; k < n; ++k )
		{
			for ( uint32_t e = 0; e < w[k].descriptorCount; ++e )
			{
				auto & r = rec( "write" )( "set", H( w[k].dstSet ) )( "binding", w[k].dstBinding )( "element", w[k].dstArrayElement + e )( "type", w[k].descriptorType );
				if ( w[k].pImageInfo ) r( "sampler", H( w[k].pImageInfo[e].sampler ) )( "view", H( w[k].pImageInfo[e].imageView ) )( "layout", w[k].pImageInfo[e].imageLayout );
				else if ( w[k].pTexelBufferView ) { r( "bufferView", H( w[k].pTexelBufferView[e] ) ); if ( w[k].pBufferInfo ) r( "buffer", H( w[k].pBufferInfo[e].buffer ) )( "offset", w[k].pBufferInfo[e].offset )( "range", w[k].pBufferInfo[e].range ); }
				else if ( w[k].pBufferInfo ) r( "buffer", H( w[k].pBufferInfo[e].buffer ) )( "offset", w[k].pBufferInfo[e].offset )( "range", w[k].pBufferInfo[e].range );
				else r( "noinfo", 1 );
			}
		}
	}
	inline VKAPI_ATTR void VKAPI_CALL getBufferMemoryRequirements( VkDevice, VkBuffer b, VkMemoryRequirements * m ){ rec( "vkGetBufferMemoryRequirements" )( "buffer", H( b ) ); *m = world().memReq; }
	inline VKAPI_ATTR void VKAPI_CALL getImageMemoryRequirements( VkDevice, VkImage b, VkMemoryRequirements * m ){ rec( "vkGetImageMemoryRequirements" )( "image", H( b ) ); *m = world().memReq; }
	inline VKAPI_ATTR VkResult VKAPI_CALL allocateMemory( VkDevice, VkMemoryAllocateInfo const * i, VkAllocationCallbacks const *, VkDeviceMemory * o )
	{
		auto & r = rec( "vkAllocateMemory" )( "size", i->allocationSize )( "type", i->memoryTypeIndex );
		auto f = fails( "vkAllocateMemory" );
		if ( f != VK_SUCCESS ) return f;
		*o = make< VkDeviceMemory >( "Memory" );
		r( "handle", H( *o ) );
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR void VKAPI_CALL freeMemory( VkDevice, VkDeviceMemory m, VkAllocationCallbacks const * ){ rec( "vkFreeMemory" )( "handle", H( m ) ); if ( m ) kill( "Memory", m ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL bindBufferMemory( VkDevice, VkBuffer b, VkDeviceMemory m, VkDeviceSize o ){ rec( "vkBindBufferMemory" )( "buffer", H( b ) )( "memory", H( m ) )( "offset", o ); return fails( "vkBindBufferMemory" ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL bindImageMemory( VkDevice, VkImage b, VkDeviceMemory m, VkDeviceSize o ){ rec( "vkBindImageMemory" )( "image", H( b ) )( "memory", H( m ) )( "offset", o ); return fails( "vkBindImageMemory" ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL mapMemory( VkDevice, VkDeviceMemory m, VkDeviceSize o, VkDeviceSize s, VkMemoryMapFlags, void ** p )
	{
		rec( "vkMapMemory" )( "memory", H( m ) )( "offset", o )( "size", s );
		auto & v = world().mapped[H( m )];
		v.resize( 1u << 16 );
		*p = v.data();
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR void VKAPI_CALL unmapMemory( VkDevice, VkDeviceMemory m ){ rec( "vkUnmapMemory" )( "memory", H( m ) ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL flushMappedMemoryRanges( VkDevice, uint32_t, VkMappedMemoryRange const * ){ rec( "vkFlushMappedMemoryRanges" ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL invalidateMappedMemoryRanges( VkDevice, uint32_t, VkMappedMemoryRange const * ){ rec( "vkInvalidateMappedMemoryRanges" ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL allocateCommandBuffers( VkDevice, VkCommandBufferAllocateInfo const * i, VkCommandBuffer * o )
	{
		for ( uint32_t k = 0; k < i->commandBufferCount; ++k ) { o[k] = make< VkCommandBuffer >( "CommandBuffer" ); rec( "vkAllocateCommandBuffers" )( "pool", H( i->commandPool ) )( "level", i->level )( "handle", H( o[k] ) ); }
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR void VKAPI_CALL freeCommandBuffers( VkDevice, VkCommandPool p, uint32_t n, VkCommandBuffer const * c )
	{
		for ( uint32_t k = 0; k < n; ++k ) { rec( "vkFreeCommandBuffers" )( "pool", H( p ) )( "handle", H( c[k] ) ); if ( c[k] ) kill( "CommandBuffer", c[k] ); }
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL beginCommandBuffer( VkCommandBuffer c, VkCommandBufferBeginInfo const * i ){ rec( "vkBeginCommandBuffer" )( "cb", H( c ) )( "flags", i->flags ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL endCommandBuffer( VkCommandBuffer c ){ rec( "vkEndCommandBuffer" )( "cb", H( c ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL resetCommandBuffer( VkCommandBuffer c, VkCommandBufferResetFlags f ){ rec( "vkResetCommandBuffer" )( "cb", H( c ) )( "flags", f ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL queueSubmit( VkQueue q, uint32_t n, VkSubmitInfo const * s, VkFence f )
	{
		rec( "vkQueueSubmit" )( "queue", H( q ) )( "n", n )( "fence", H( f ) );
		for ( uint32_t k = 0; k < n; ++k )
		{
			auto & r = rec( "submit" )( "waits", s[k].waitSemaphoreCount )( "cbs", s[k].commandBufferCount )( "signals", s[k].signalSemaphoreCount );
			for ( uint32_t e = 0; e < s[k].waitSemaphoreCount; ++e ) r( "w" + std::to_string( e ), H( s[k].pWaitSemaphores[e] ) )( "ws" + std::to_string( e ), s[k].pWaitDstStageMask[e] );
			for ( uint32_t e = 0; e < s[k].commandBufferCount; ++e ) r( "cb" + std::to_string( e ), H( s[k].pCommandBuffers[e] ) );
			for ( uint32_t e = 0; e < s[k].signalSemaphoreCount; ++e ) r( "s" + std::to_string( e ), H( s[k].pSignalSemaphores[e] ) );
		}
		auto res = fails( "vkQueueSubmit" );
		if ( f && res == VK_SUCCESS ) world().fenceSignaled[H( f )] = true;
		return res;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL getQueryPoolResults( VkDevice, VkQueryPool p, uint32_t first, uint32_t count, size_t, void * d, VkDeviceSize stride, VkQueryResultFlags f )
	{
		rec( "vkGetQueryPoolResults" )( "pool", H( p ) )( "first", first )( "count", count )( "stride", stride )( "flags", f );
		for ( uint32_t k = 0; k < count && k < 2; ++k ) std::memcpy( ( char * )d + k * stride, &world().queryValues[k], 8 );
		return world().queryResult;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL resetEvent( VkDevice, VkEvent e ){ rec( "vkResetEvent" )( "event", H( e ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL setEvent( VkDevice, VkEvent e ){ rec( "vkSetEvent" )( "event", H( e ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL getEventStatus( VkDevice, VkEvent e ){ rec( "vkGetEventStatus" )( "event", H( e ) ); return VK_EVENT_SET; }
	inline VKAPI_ATTR VkResult VKAPI_CALL getFenceStatus( VkDevice, VkFence e ){ rec( "vkGetFenceStatus" )( "fence", H( e ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL waitForFences( VkDevice, uint32_t n, VkFence const * e, VkBool32 a, uint64_t t ){ for ( uint32_t k = 0; k < n; ++k ) rec( "vkWaitForFences" )( "fence", H( e[k] ) )( "all", a )( "timeout", t ); return fails( "vkWaitForFences" ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL resetFences( VkDevice, uint32_t n, VkFence const * e ){ for ( uint32_t k = 0; k < n; ++k ) rec( "vkResetFences" )( "fence", H( e[k] ) ); return VK_SUCCESS; }
	// commands
	inline VKAPI_ATTR void VKAPI_CALL cmdBindPipeline( VkCommandBuffer c, VkPipelineBindPoint b, VkPipeline p ){ rec( "vkCmdBindPipeline" )( "cb", H( c ) )( "point", b )( "pipeline", H( p ) ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdBindDescriptorSets( VkCommandBuffer c, VkPipelineBindPoint b, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t dn, uint32_t const * )
	{
		auto & r = rec( "vkCmdBindDescriptorSets" )( "cb", H( c ) )( "point", b )( "layout", H( l ) )( "first", first )( "n", n )( "dyn", dn );
		for ( uint32_t k = 0; k < n; ++k ) r( "set" + std::to_string( k ), H( s[k] ) );
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdBindVertexBuffers( VkCommandBuffer c, uint32_t f, uint32_t n, VkBuffer const * b, VkDeviceSize const * o ){ auto & r = rec( "vkCmdBindVertexBuffers" )( "cb", H( c ) )( "first", f )( "n", n ); for ( uint32_t k = 0; k < n; ++k ) r( "b" + std::to_string( k ), H( b[k] ) )( "o" + std::to_string( k ), o[k] ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdBindIndexBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkIndexType t ){ rec( "vkCmdBindIndexBuffer" )( "cb", H( c ) )( "buffer", H( b ) )( "offset", o )( "type", t ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdClearColorImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * s )
	{
		auto & r = rec( "vkCmdClearColorImage" )( "cb", H( c ) )( "image", H( i ) )( "layout", l )( "n", n )( "v0", v->uint32[0] )( "v1", v->uint32[1] )( "v2", v->uint32[2] )( "v3", v->uint32[3] );
		for ( uint32_t k = 0; k < n; ++k ) range( r, s[k] );
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdClearDepthStencilImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * s )
	{
		auto & r = rec( "vkCmdClearDepthStencilImage" )( "cb", H( c ) )( "image", H( i ) )( "layout", l )( "n", n )( "depth", fbits( v->depth ) )( "stencil", v->stencil );
		for ( uint32_t k = 0; k < n; ++k ) range( r, s[k] );
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdDispatch( VkCommandBuffer c, uint32_t x, uint32_t y, uint32_t z ){ rec( "vkCmdDispatch" )( "cb", H( c ) )( "x", x )( "y", y )( "z", z ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdDispatchIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o ){ rec( "vkCmdDispatchIndirect" )( "cb", H( c ) )( "buffer", H( b ) )( "offset", o ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdDraw( VkCommandBuffer c, uint32_t v, uint32_t i, uint32_t fv, uint32_t fi ){ rec( "vkCmdDraw" )( "cb", H( c ) )( "vertices", v )( "instances", i )( "firstVertex", fv )( "firstInstance", fi ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdDrawIndexed( VkCommandBuffer c, uint32_t v, uint32_t i, uint32_t fx, int32_t vo, uint32_t fi ){ rec( "vkCmdDrawIndexed" )( "cb", H( c ) )( "indices", v )( "instances", i )( "firstIndex", fx )( "vertexOffset", uint32_t( vo ) )( "firstInstance", fi ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdDrawIndexedIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ rec( "vkCmdDrawIndexedIndirect" )( "cb", H( c ) )( "buffer", H( b ) )( "offset", o )( "count", n )( "stride", s ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdDrawIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ rec( "vkCmdDrawIndirect" )( "cb", H( c ) )( "buffer", H( b ) )( "offset", o )( "count", n )( "stride", s ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdBeginRenderPass( VkCommandBuffer c, VkRenderPassBeginInfo const * i, VkSubpassContents s )
	{
		auto & r = rec( "vkCmdBeginRenderPass" )( "cb", H( c ) )( "renderPass", H( i->renderPass ) )( "framebuffer", H( i->framebuffer ) )( "x", uint32_t( i->renderArea.offset.x ) )( "y", uint32_t( i->renderArea.offset.y ) )( "w", i->renderArea.extent.width )( "h", i->renderArea.extent.height )( "contents", s )( "clears", i->clearValueCount );
		for ( uint32_t k = 0; k < i->clearValueCount; ++k ) r( "clear" + std::to_string( k ), i->pClearValues[k].color.uint32[0] );
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdEndRenderPass( VkCommandBuffer c ){ rec( "vkCmdEndRenderPass" )( "cb", H( c ) ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdPushConstants( VkCommandBuffer c, VkPipelineLayout l, VkShaderStageFlags s, uint32_t o, uint32_t n, void const * ){ rec( "vkCmdPushConstants" )( "cb", H( c ) )( "layout", H( l ) )( "stages", s )( "offset", o )( "size", n ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdResetQueryPool( VkCommandBuffer c, VkQueryPool p, uint32_t f, uint32_t n ){ rec( "vkCmdResetQueryPool" )( "cb", H( c ) )( "pool", H( p ) )( "first", f )( "count", n ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdWriteTimestamp( VkCommandBuffer c, VkPipelineStageFlagBits s, VkQueryPool p, uint32_t q ){ rec( "vkCmdWriteTimestamp" )( "cb", H( c ) )( "stage", s )( "pool", H( p ) )( "query", q ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdPipelineBarrier( VkCommandBuffer c, VkPipelineStageFlags ss, VkPipelineStageFlags ds, VkDependencyFlags df, uint32_t nm, VkMemoryBarrier const * m, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * im )
	{
		for ( uint32_t k = 0; k < nm; ++k ) rec( "vkCmdPipelineBarrier:memory" )( "cb", H( c ) )( "srcStage", ss )( "dstStage", ds )( "flags", df )( "srcAccess", m[k].srcAccessMask )( "dstAccess", m[k].dstAccessMask );
		for ( uint32_t k = 0; k < nb; ++k ) rec( "vkCmdPipelineBarrier:buffer" )( "cb", H( c ) )( "srcStage", ss )( "dstStage", ds )( "flags", df )( "srcAccess", b[k].srcAccessMask )( "dstAccess", b[k].dstAccessMask )( "srcQ", b[k].srcQueueFamilyIndex )( "dstQ", b[k].dstQueueFamilyIndex )( "buffer", H( b[k].buffer ) )( "offset", b[k].offset )( "size", b[k].size );
		for ( uint32_t k = 0; k < ni; ++k )
		{
			auto & r = rec( "vkCmdPipelineBarrier:image" )( "cb", H( c ) )( "srcStage", ss )( "dstStage", ds )( "flags", df )( "srcAccess", im[k].srcAccessMask )( "dstAccess", im[k].dstAccessMask )( "oldLayout", im[k].oldLayout )( "newLayout", im[k].newLayout )( "srcQ", im[k].srcQueueFamilyIndex )( "dstQ", im[k].dstQueueFamilyIndex )( "image", H( im[k].image ) );
			range( r, im[k].subresourceRange );
		}
		if ( !nm && !nb && !ni ) rec( "vkCmdPipelineBarrier:empty" )( "cb", H( c ) )( "srcStage", ss )( "dstStage", ds );
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdBlitImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * b, VkFilter f )
	{
		for ( uint32_t k = 0; k < n; ++k )
		{
			auto & r = rec( "vkCmdBlitImage" )( "cb", H( c ) )( "src", H( s ) )( "srcLayout", sl )( "dst", H( d ) )( "dstLayout", dl )( "filter", f );
			layers( r, "s", b[k].srcSubresource ); off( r, "s0", b[k].srcOffsets[0] ); off( r, "s1", b[k].srcOffsets[1] );
			layers( r, "d", b[k].dstSubresource ); off( r, "d0", b[k].dstOffsets[0] ); off( r, "d1", b[k].dstOffsets[1] );
		}
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdCopyBuffer( VkCommandBuffer c, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * b ){ for ( uint32_t k = 0; k < n; ++k ) rec( "vkCmdCopyBuffer" )( "cb", H( c ) )( "src", H( s ) )( "dst", H( d ) )( "srcOffset", b[k].srcOffset )( "dstOffset", b[k].dstOffset )( "size", b[k].size ); }
	inline void bic( Rec & r, VkBufferImageCopy const & b ){ r( "bufferOffset", b.bufferOffset )( "rowLength", b.bufferRowLength )( "imageHeight", b.bufferImageHeight ); layers( r, "i", b.imageSubresource ); off( r, "o", b.imageOffset ); ext( r, "e", b.imageExtent ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdCopyBufferToImage( VkCommandBuffer c, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * b ){ for ( uint32_t k = 0; k < n; ++k ) { auto & r = rec( "vkCmdCopyBufferToImage" )( "cb", H( c ) )( "src", H( s ) )( "dst", H( d ) )( "dstLayout", l ); bic( r, b[k] ); } }
	inline VKAPI_ATTR void VKAPI_CALL cmdCopyImageToBuffer( VkCommandBuffer c, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, VkBufferImageCopy const * b ){ for ( uint32_t k = 0; k < n; ++k ) { auto & r = rec( "vkCmdCopyImageToBuffer" )( "cb", H( c ) )( "src", H( s ) )( "srcLayout", l )( "dst", H( d ) ); bic( r, b[k] ); } }
	inline VKAPI_ATTR void VKAPI_CALL cmdCopyImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * b )
	{
		for ( uint32_t k = 0; k < n; ++k )
		{
			auto & r = rec( "vkCmdCopyImage" )( "cb", H( c ) )( "src", H( s ) )( "srcLayout", sl )( "dst", H( d ) )( "dstLayout", dl );
			layers( r, "s", b[k].srcSubresource ); off( r, "s0", b[k].srcOffset ); layers( r, "d", b[k].dstSubresource ); off( r, "d0", b[k].dstOffset ); ext( r, "e", b[k].extent );
		}
	}
	inline VKAPI_ATTR void VKAPI_CALL cmdExecuteCommands( VkCommandBuffer c, uint32_t n, VkCommandBuffer const * b ){ for ( uint32_t k = 0; k < n; ++k ) rec( "vkCmdExecuteCommands" )( "cb", H( c ) )( "sub", H( b[k] ) ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdResetEvent( VkCommandBuffer c, VkEvent e, VkPipelineStageFlags f ){ rec( "vkCmdResetEvent" )( "cb", H( c ) )( "event", H( e ) )( "stage", f ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdSetEvent( VkCommandBuffer c, VkEvent e, VkPipelineStageFlags f ){ rec( "vkCmdSetEvent" )( "cb", H( c ) )( "event", H( e ) )( "stage", f ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdWaitEvents( VkCommandBuffer c, uint32_t n, VkEvent const * e, VkPipelineStageFlags a, VkPipelineStageFlags b, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ){ for ( uint32_t k = 0; k < n; ++k ) rec( "vkCmdWaitEvents" )( "cb", H( c ) )( "event", H( e[k] ) )( "src", a )( "dst", b ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdFillBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t d ){ rec( "vkCmdFillBuffer" )( "cb", H( c ) )( "buffer", H( b ) )( "offset", o )( "size", s )( "data", d ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL setDebugUtilsObjectNameEXT( VkDevice, VkDebugUtilsObjectNameInfoEXT const * ){ return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL cmdBeginDebugUtilsLabelEXT( VkCommandBuffer c, VkDebugUtilsLabelEXT const * ){ if ( world().recordDebug ) rec( "dbgBegin" )( "cb", H( c ) ); }
	inline VKAPI_ATTR void VKAPI_CALL cmdEndDebugUtilsLabelEXT( VkCommandBuffer c ){ if ( world().recordDebug ) rec( "dbgEnd" )( "cb", H( c ) ); }

	inline PFN_vkVoidFunction VKAPI_CALL getProc( VkDevice, char const * name )
	{
#define M( N, F ) { "vk" #N, PFN_vkVoidFunction( &F ) }
#define CD( N ) { "vkCreate" #N, PFN_vkVoidFunction( &create##N ) }, { "vkDestroy" #N, PFN_vkVoidFunction( &destroy##N ) }
		static std::map< std::string, PFN_vkVoidFunction > const m{
			CD( Buffer ), CD( Image ), CD( ImageView ), CD( Sampler ), CD( PipelineLayout ), CD( DescriptorSetLayout ), CD( DescriptorPool ), CD( RenderPass ), CD( Framebuffer ), CD( CommandPool ), CD( Semaphore ), CD( QueryPool ), CD( Event ), CD( Fence ),
			M( CreateGraphicsPipelines, createGraphicsPipelines ), M( CreateComputePipelines, createComputePipelines ), M( DestroyPipeline, destroyPipeline ), M( AllocateDescriptorSets, allocateDescriptorSets ), M( FreeDescriptorSets, freeDescriptorSets ), M( UpdateDescriptorSets, updateDescriptorSets ),
			M( GetBufferMemoryRequirements, getBufferMemoryRequirements ), M( GetImageMemoryRequirements, getImageMemoryRequirements ), M( AllocateMemory, allocateMemory ), M( FreeMemory, freeMemory ), M( BindBufferMemory, bindBufferMemory ), M( BindImageMemory, bindImageMemory ), M( MapMemory, mapMemory ), M( UnmapMemory, unmapMemory ), M( FlushMappedMemoryRanges, flushMappedMemoryRanges ), M( InvalidateMappedMemoryRanges, invalidateMappedMemoryRanges ),
			M( AllocateCommandBuffers, allocateCommandBuffers ), M( FreeCommandBuffers, freeCommandBuffers ), M( BeginCommandBuffer, beginCommandBuffer ), M( EndCommandBuffer, endCommandBuffer ), M( ResetCommandBuffer, resetCommandBuffer ), M( QueueSubmit, queueSubmit ), M( GetQueryPoolResults, getQueryPoolResults ),
			M( ResetEvent, resetEvent ), M( SetEvent, setEvent ), M( GetEventStatus, getEventStatus ), M( GetFenceStatus, getFenceStatus ), M( WaitForFences, waitForFences ), M( ResetFences, resetFences ),
			M( CmdBindPipeline, cmdBindPipeline ), M( CmdBindDescriptorSets, cmdBindDescriptorSets ), M( CmdBindVertexBuffers, cmdBindVertexBuffers ), M( CmdBindIndexBuffer, cmdBindIndexBuffer ), M( CmdClearColorImage, cmdClearColorImage ), M( CmdClearDepthStencilImage, cmdClearDepthStencilImage ), M( CmdDispatch, cmdDispatch ), M( CmdDispatchIndirect, cmdDispatchIndirect ), M( CmdDraw, cmdDraw ), M( CmdDrawIndexed, cmdDrawIndexed ), M( CmdDrawIndexedIndirect, cmdDrawIndexedIndirect ), M( CmdDrawIndirect, cmdDrawIndirect ), M( CmdBeginRenderPass, cmdBeginRenderPass ), M( CmdEndRenderPass, cmdEndRenderPass ), M( CmdPushConstants, cmdPushConstants ), M( CmdResetQueryPool, cmdResetQueryPool ), M( CmdWriteTimestamp, cmdWriteTimestamp ), M( CmdPipelineBarrier, cmdPipelineBarrier ), M( CmdBlitImage, cmdBlitImage ), M( CmdCopyBuffer, cmdCopyBuffer ), M( CmdCopyBufferToImage, cmdCopyBufferToImage ), M( CmdCopyImage, cmdCopyImage ), M( CmdCopyImageToBuffer, cmdCopyImageToBuffer ), M( CmdExecuteCommands, cmdExecuteCommands ), M( CmdResetEvent, cmdResetEvent ), M( CmdSetEvent, cmdSetEvent ), M( CmdWaitEvents, cmdWaitEvents ), M( CmdFillBuffer, cmdFillBuffer ),
			M( SetDebugUtilsObjectNameEXT, setDebugUtilsObjectNameEXT ), M( CmdBeginDebugUtilsLabelEXT, cmdBeginDebugUtilsLabelEXT ), M( CmdEndDebugUtilsLabelEXT, cmdEndDebugUtilsLabelEXT ) };
#undef M
#undef CD
		auto it = m.find( name );
		return it == m.end() ? nullptr : it->second;
	}

	inline VkPhysicalDeviceMemoryProperties defaultMemory()
	{
		VkPhysicalDeviceMemoryProperties m{};
		m.memoryTypeCount = 3;
		m.memoryTypes[0].propertyFlags = VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT;
		m.memoryTypes[1].propertyFlags = VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT;
		m.memoryTypes[2].propertyFlags = VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT | VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT;
		return m;
	}
	inline VkPhysicalDeviceProperties defaultProps(){ VkPhysicalDeviceProperties p{}; p.limits.timestampPeriod = 1.0f; return p; }

	struct Dev
	{
		crg::GraphContext ctx;
		explicit Dev( bool separate = false, VkPhysicalDeviceMemoryProperties mem = defaultMemory(), VkPhysicalDeviceProperties props = defaultProps() )
			: ctx{ VkDevice( 0x77 ), VkPipelineCache( 0x78 ), nullptr, mem, props, separate, ( PFN_vkGetDeviceProcAddr )&getProc }
		{
		}
	};

	// ------------------------------------------------------------------ driver
	inline int run( int argc, char ** argv )
	{
		uint64_t seed = 1, iter = ~0ull;
		double scale = 1.0;
		std::string only, out;
		std::vector< uint64_t > dict;
		for ( int i = 1; i + 1 < argc; i += 2 )
		{
			std::string a = argv[i], v = argv[i + 1];
			if ( a == "--seed" ) seed = std::strtoull( v.c_str(), nullptr, 10 );
			else if ( a == "--scale" ) scale = std::atof( v.c_str() );
			else if ( a == "--case" ) only = v;
			else if ( a == "--iter" ) iter = std::strtoull( v.c_str(), nullptr, 10 );
			else if ( a == "--dict" ) { std::istringstream s{ v }; std::string t; while ( std::getline( s, t, ',' ) ) dict.push_back( std::strtoull( t.c_str(), nullptr, 10 ) ); }
		}
		crg::Logger::setDebugCallback( []( std::string const &, bool ){} );
		crg::Logger::setInfoCallback( []( std::string const &, bool ){} );
		crg::Logger::setWarningCallback( []( std::string const &, bool ){} );
		crg::Logger::setErrorCallback( []( std::string const &, bool ){} );
		crg::Logger::setTraceCallback( []( std::string const &, bool ){} );
		uint64_t total = 0, checks = 0, distinct = 0;
		int rc = 0;
		for ( auto & c : cases() )
		{
			if ( !only.empty() && only != c.name ) continue;
			uint64_t n = iter != ~0ull ? 1 : uint64_t( c.quick * scale );
			if ( n == 0 ) n = 1;
			std::set< size_t > seen;
			uint64_t caseChecks = 0;
			for ( uint64_t k = 0; k < n; ++k )
			{
				uint64_t it = iter != ~0ull ? iter : k;
				uint64_t hs = 1469598103934665603ull;
				for ( char const * p = c.name; *p; ++p ) hs = ( hs ^ uint8_t( *p ) ) * 1099511628211ull;
				Rng rng{ seed * 0x9E3779B97F4A7C15ull ^ hs ^ ( it * 0xD1B54A32D192ED03ull ) };
				rng.next();
				rng.dict = &dict;
				Ctx cx;
				reset();
				// what a crash would be attributed to
				if ( FILE * f = std::fopen( "current_case.txt", "w" ) ) { std::fprintf( f, "%s %llu %llu\n", c.name, ( unsigned long long )seed, ( unsigned long long )it ); std::fclose( f ); }
				std::string what;
				try { c.fn( rng, cx ); }
				catch ( Failure & e ) { what = e.what(); }
				catch ( std::exception & e ) { what = std::string( "unexpected exception: " ) + e.what(); }
				catch ( ... ) { what = "unexpected exception"; }
				++total;
				caseChecks += cx.checks;
				seen.insert( std::hash< std::string >{}( cx.in.str() ) );
				if ( k == 0 && iter == ~0ull ) std::printf( "SAMPLE %s iter=%llu %s\n", c.name, ( unsigned long long )it, cx.in.str().substr( 0, 400 ).c_str() );
				if ( !what.empty() )
				{
					std::printf( "FAIL case=%s seed=%llu iter=%llu\n  what: %s\n  input: %s\n", c.name, ( unsigned long long )seed, ( unsigned long long )it, what.c_str(), cx.in.str().c_str() );
					rc = 3;
					break;
				}
			}
			checks += caseChecks;
			distinct += seen.size();
			std::printf( "CASE %s instances=%llu distinct=%zu checks=%llu\n", c.name, ( unsigned long long )n, seen.size(), ( unsigned long long )caseChecks );
			std::fflush( stdout );
		}
		std::printf( "TOTAL instances=%llu distinct=%llu checks=%llu\n", ( unsigned long long )total, ( unsigned long long )distinct, ( unsigned long long )checks );
		return rc;
	}
}
